#pragma once
class A {
public:
  A() {}
  int m(int a) const { return a; }
  int m(bool b) const { return b; }
  int m1(int c) const { return 100 + c; }
};

#pragma once
class Abs {
public:
  virtual ~Abs() {}
  virtual int f() const = 0;
};
class D : public virtual Abs {
public:
  D() {}
  int g() const { return 1; }
};

#pragma once
class Base {
public:
  virtual ~Base() {}
  virtual int ok(int a) const = 0;
  virtual int wide(__int128 a) const = 0;
};
inline int unrelated() { return 3; }

#pragma once
namespace absl {
struct Duration { double s = 0; 
  Duration& operator+=(Duration o) { s += o.s; return *this; }
  Duration& operator-=(Duration o) { s -= o.s; return *this; } };
inline Duration operator+(Duration a, Duration b) { return {a.s + b.s}; }
inline Duration operator-(Duration a, Duration b) { return {a.s - b.s}; }
inline bool operator<(Duration a, Duration b) { return a.s < b.s; }
inline bool operator>(Duration a, Duration b) { return a.s > b.s; }
inline Duration ZeroDuration() { return {}; }
inline Duration Seconds(double s) { return {s}; }
inline double ToDoubleSeconds(Duration d) { return d.s; }
struct Time { double s = 0; };
inline Duration operator-(Time a, Time b) { return {a.s - b.s}; }
}

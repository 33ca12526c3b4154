#pragma once
#include "nlp.hpp"
namespace nlp {
struct Scal { double f = 1; dv c; bool on = false; };
/// the documented gradient-based scaling, from the user's own derivatives at the first evaluated point
Scal scaling(const Spec& p, const Opts& o);
void check_kkt(const Spec& p, const Opts& o, const Rec& r, const char* prop = "C08");                     // C08
void check_bounds(const Spec& p, const Opts& o, const Rec& r);                  // C09
void check_reports(const Spec& p, const Opts& o, const Rec& r, bool exact);     // C10
void check_books(const Spec& p, const Opts& o, const Rec& r, bool values_valid);                   // C17
bool has_fixed(const Spec& p);
}

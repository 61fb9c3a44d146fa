// Harness helpers shared by the scenarios (compiled with instrumentation, active only inside library calls).
#pragma once
#include "sim.h"
#include <cstring>
#include <cstdlib>
#include <cassert>
#include <cmath>
#include <cfloat>
#include <exception>
#include <stdexcept>
#include <string>
#include <vector>
#include <memory>
#include <algorithm>

struct Abort { uint64_t id; }; // thrown by harness callbacks

enum Outcome { OK = 0, OOM = 1, ABORTED = 2, ERROR = 3 };

// Runs f as one operation on the library. OOM is only accepted when an allocation was really refused.
template<class F> Outcome callSut(const sim::Op* op, F&& f, bool allowError = false, std::string* what = nullptr, uint64_t budget = 60000000)
{
	rt::OpCtl c;
	c.budget = budget;
	if (op) { c.faultMode = op->fmode; c.faultN = op->fn; c.fpu = op->fpu; c.pre = op->pre.data(); c.preCount = (int)op->pre.size(); }
	Outcome r = OK;
	rt::opBegin(c);
	try { f(); rt::opEnd(); }
	catch (const std::bad_alloc&)
	{
		rt::opEnd();
		if (!rt::opFaultFired()) rt::violate("spurious-bad-alloc", "bad_alloc although no allocation was refused");
		r = OOM;
	}
	catch (const Abort& a) { rt::opEnd(); rt::record(a.id); r = ABORTED; }
	catch (const std::exception& e)
	{
		rt::opEnd();
		std::string w = e.what();
		if (!allowError) rt::violate("unexpected-exception", "unexpected exception: %s", w.c_str());
		if (what) *what = w;
		r = ERROR;
	}
	catch (...)
	{
		rt::opEnd();
		rt::violate("unexpected-exception", "unexpected exception of unknown type");
	}
	rt::record((uint64_t)r + 1000);
	return r;
}

inline float ulpStep(float v, int n) { for (; n > 0; n--) v = std::nextafterf(v, INFINITY); for (; n < 0; n++) v = std::nextafterf(v, -INFINITY); return v; }

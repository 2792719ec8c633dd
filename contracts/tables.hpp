// identity of an interpolation table: support points, values, orders and flags
#pragma once
#include "PROPOSAL/math/Interpolant.h"
#include <vector>
typedef std::vector<double> Row;
typedef std::vector<Row> Tab;
static double table_orders(int o, bool rational, bool relative) { return o + 100 * rational + 200 * relative; }
static double row_id(const Row& r, double w) { double s = 17 * r.size(); for (size_t i = 0; i < r.size(); i++) s += (w + i) * r[i]; return s; }
static double tab_id(const Tab& t, double w) { double s = 0; for (size_t i = 0; i < t.size(); i++) s += row_id(t[i], w + 3 * i); return s; }

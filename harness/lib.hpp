// The library under test: public headers only.
#pragma once
#include <cassert>
#include <cmath>
#include <stdexcept>
#include <string>
#include <functional>
#include <span>
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include "lalib/ops/orthogonal.hpp"
#include "lalib/solver/tri_diag.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
#include "lalib/solver/ilu.hpp"
#include "lalib/solver/gmres.hpp"

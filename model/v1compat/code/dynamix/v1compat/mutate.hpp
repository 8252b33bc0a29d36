// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#include <dynamix/mutate.hpp>

namespace dynamix::v1compat {
using dynamix::mutate;
}

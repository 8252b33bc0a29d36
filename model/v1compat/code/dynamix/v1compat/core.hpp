#pragma once

#include "domain.hpp"

#include "object.hpp"

#include "declare_mixin.hpp"
#include "define_mixin.hpp"
#include "declare_message.hpp"
#include "define_message.hpp"
#include "mutate.hpp"

#include <dynamix/exception.hpp>

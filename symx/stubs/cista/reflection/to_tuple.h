#pragma once
#include "cista/reflection/arity.h"

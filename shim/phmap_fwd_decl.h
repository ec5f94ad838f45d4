#pragma once
#include "phmap.h"

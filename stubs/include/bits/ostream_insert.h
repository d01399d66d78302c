#pragma once
#include "vpio.h"

#pragma once
#include "composite.h"

#pragma once
#include "DataStore.hpp"

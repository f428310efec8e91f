#include "groups.hpp"

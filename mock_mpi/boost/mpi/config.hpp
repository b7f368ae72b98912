#include "mock_all.hpp"

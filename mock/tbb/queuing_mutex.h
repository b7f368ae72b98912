#include "mock_all.h"

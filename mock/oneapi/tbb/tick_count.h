#include "../../tbb/mock_all.h"

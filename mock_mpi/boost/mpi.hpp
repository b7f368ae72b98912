#include "mpi/mock_all.hpp"

#pragma once
#include <boost/interprocess/shared_memory_object.hpp>

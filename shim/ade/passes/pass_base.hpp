#pragma once
#include <ade/passes/topological_sort.hpp>

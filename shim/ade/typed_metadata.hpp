#pragma once
#include <ade/graph.hpp>

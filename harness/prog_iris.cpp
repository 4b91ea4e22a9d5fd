// The iris sample's main program, callable.
#include <fstream>
#include <iostream>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#define custom sample_iris
#define main main_iris
#include "samples/iris/main.cpp"

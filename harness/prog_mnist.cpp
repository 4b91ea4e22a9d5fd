// The mnist sample's main program, callable.
#include <fstream>
#include <iostream>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#define custom sample_mnist
#define main main_mnist
#include "samples/mnist/main.cpp"

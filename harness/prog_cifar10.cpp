// The cifar10 sample's main program, callable.
#include <fstream>
#include <iostream>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#define custom sample_cifar10
#define main main_cifar10
#include "samples/cifar10/main.cpp"

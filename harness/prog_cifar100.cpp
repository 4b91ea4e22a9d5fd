// The cifar100 sample's main program, callable.
#include <fstream>
#include <iostream>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#define custom sample_cifar100
#define main main_cifar100
#include "samples/cifar100/main.cpp"

// The cifar10 sample's data set, under a name of its own.
#include <fstream>
#include <iostream>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#define custom sample_cifar10
#include "samples/cifar10/utility.cpp"
std::shared_ptr<deepworks::IDataset> make_cifar10(const std::string& path) { return std::make_shared<custom::CIFAR10Dataset>(path); }

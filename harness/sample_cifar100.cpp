// The cifar100 sample's data set, under a name of its own.
#include <fstream>
#include <iostream>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#define custom sample_cifar100
#include "samples/cifar100/utility.cpp"
std::shared_ptr<deepworks::IDataset> make_cifar100(const std::string& path) { return std::make_shared<custom::CIFAR100Dataset>(path); }

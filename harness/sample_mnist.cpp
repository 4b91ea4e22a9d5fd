// The mnist sample's data set, under a name of its own.
#include <fstream>
#include <iostream>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#define custom sample_mnist
#include "samples/mnist/utility.cpp"
std::shared_ptr<deepworks::IDataset> make_mnist(const std::string& path) { return std::make_shared<custom::Dataset>(path); }

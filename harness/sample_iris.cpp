// The iris sample's data set, under a name of its own.
#include <fstream>
#include <iostream>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#define custom sample_iris
#include "samples/iris/utility.cpp"
std::shared_ptr<deepworks::IDataset> make_iris(const std::string& path) { return std::make_shared<custom::IrisCSVDataset>(path); }

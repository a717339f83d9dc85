// Helpers for the model harnesses.
#pragma once
#include <string>
#include "cnn_from_scratch/ModelDescription.h"
#include "ly.h"
typedef my_cnn::ModelDescription<double, std::string> Model;
typedef my_cnn::ModelResults<std::string> Results;

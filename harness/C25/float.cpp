#include "c25.inl"
INST(500, std::string("linear float"), exported<float, NS::DynamicVector<float>, 1>);
INST(500, std::string("quadratic float, standard vectors"), exported<float, std::vector<double>, 2>);
INST(0.3, std::string("large linear float"), exported<float, NS::DynamicVector<float>, 1, true>);
INST(0.3, std::string("large quadratic float"), exported<float, NS::DynamicVector<float>, 2, true>);

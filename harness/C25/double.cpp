#include "c25.inl"
INST(1000, std::string("linear double"), exported<double, NS::DynamicVector<double>, 1>);
INST(1000, std::string("quadratic double"), exported<double, NS::DynamicVector<double>, 2>);
INST(0.3, std::string("large linear double"), exported<double, NS::DynamicVector<double>, 1, true>);
INST(0.3, std::string("large quadratic double"), exported<double, NS::DynamicVector<double>, 2, true>);

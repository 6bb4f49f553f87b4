#include "c26.inl"
INST(400, std::string("patch test linear ") + TN<float>::n(), patch<float, 1>);
INST(400, std::string("patch test quadratic ") + TN<float>::n(), patch<float, 2>);
INST(500, std::string("line linear ") + TN<float>::n(), line<float, 1>);
INST(500, std::string("line quadratic ") + TN<float>::n(), line<float, 2>);
INST(400, std::string("finite differences ") + TN<float>::n(), fdm<float>);
INST(300, std::string("heat ") + TN<float>::n(), heat<float>);

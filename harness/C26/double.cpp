#include "c26.inl"
INST(400, std::string("patch test linear ") + TN<double>::n(), patch<double, 1>);
INST(400, std::string("patch test quadratic ") + TN<double>::n(), patch<double, 2>);
INST(500, std::string("line linear ") + TN<double>::n(), line<double, 1>);
INST(500, std::string("line quadratic ") + TN<double>::n(), line<double, 2>);
INST(400, std::string("finite differences ") + TN<double>::n(), fdm<double>);
INST(300, std::string("heat ") + TN<double>::n(), heat<double>);
INST(60, std::string("smooth linear ") + TN<double>::n(), smooth<double, 1>);
INST(60, std::string("smooth quadratic ") + TN<double>::n(), smooth<double, 2>);

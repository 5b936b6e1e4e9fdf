// The same with the portable bit operations in place of the processor's.
#undef __BMI2__
#include "order.cpp"

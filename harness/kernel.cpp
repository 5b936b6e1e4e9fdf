#include "kernel.hpp"
int main(int c, char ** v) { return drive<B>(c, v); }

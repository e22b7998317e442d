#include "dsim.h"
extern "C" char __data_start[], _end[], __executable_start[], etext[];
int main(int argc, char** argv)
{
  return dsim_main(argc, argv, __data_start, _end, __executable_start, etext);
}

#include "../common/report.h"
void p15(vh::Report&);
void p16(vh::Report&);
int main(int argc, char** argv)
{
	vh::Report rep;
	rep.opt = vh::parseOptions(argc, argv);
	if (rep.opt.prop == "P15")
		p15(rep);
	else if (rep.opt.prop == "P16")
		p16(rep);
	else
		return 2;
	return rep.finish();
}

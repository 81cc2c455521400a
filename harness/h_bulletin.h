#ifndef VERIF_H_BULLETIN_H
#define VERIF_H_BULLETIN_H
#include "common.h"
namespace drv {
void put_bufr_header(J& j, const wreport::BufrBulletin& b);
void put_desc(J& j, const std::vector<wreport::Varcode>& d);
void put_subsets(J& j, const wreport::Bulletin& b);
void take_subsets(Args& a, wreport::Bulletin& b);
void take_bufr(Args& a, wreport::BufrBulletin& b);
}
#endif

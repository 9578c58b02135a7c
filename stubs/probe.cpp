// Analysis-only: reads the list of matching rules off a model and puts an automaton of a given size into it.
#include "dfa_builder.h"
#include "pass.hpp"
#include "Lexer/dfa_compressed.hpp"
#include "Lexer/regex_model.hpp"
#include "Lexer/model_core.hpp"
using namespace dragontooth;
extern "C" {
void verif_rule(int i);
void verif_columns(int n);
void verif_item(int kind, int opt, int ch, const char *data);
int verif_states(void);
}
struct VerifList : public RegexList { static bool alt(RegexList *l) { return l->*(&VerifList::enableOr); } };
static void verif_walk(RegexItem *r) {
  switch (r->getItemType()) {
    case RegexItem::rt_list: {
      RegexList *l = (RegexList *) r;
      verif_item(0, r->getOpt(), VerifList::alt(l), "");
      for (auto p : l->getItems()) verif_walk(p);
      verif_item(4, 0, 0, "");
      break;
    }
    case RegexItem::rt_set: verif_item(1, r->getOpt(), 0, ((RegexSet *) r)->getData().c_str()); break;
    case RegexItem::rt_char: verif_item(2, r->getOpt(), ((RegexChar *) r)->getChar(), ""); break;
    default: verif_item(3, r->getOpt(), 0, ""); break;
  }
}
extern "C" IPassable *verif_pass(IPassable *data) {
  RegexModel *m = (RegexModel *) data;
  verif_columns(m->input_max);
  for (int i = 0; i < m->size(); ++i) {
    verif_rule(i);
    verif_walk(m->at(i)->root);
  }
  DFACompressed *d = new DFACompressed(m->input_max);
  d->m_base.resize(verif_states() + 1);
  m->main_dfa = d;
  return data;
}

#include "node.h"
namespace VLCB { Configuration config((Storage *)nullptr); } // referenced by the single-argument Controller constructor
namespace vm {
Node *Node::current = nullptr;
bool Node::useGlobal = false;
std::vector<Svc> fullServices(bool diag, bool coe)
{
  std::vector<Svc> v = {diag ? S_MNSD : S_MNS, diag ? S_CAND : S_CAN, S_NV, diag ? S_CONSD : S_CONS};
  if (coe) v.push_back(S_COE);
  v.push_back(diag ? S_TEACHD : S_TEACH); v.push_back(diag ? S_PRODD : S_PROD);
  return v;
}
}

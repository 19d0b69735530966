// Parameters and service discovery describe the module as configured.
#include "model.h"
using namespace vm;

CHECK_DEF(C14, 12000, 200000, "A case is a random selection and order of services, capacities, version, identity and processor settings, then a walk through modes and learn mode with parameter, identity, name and service queries (valid, boundary and invalid indices) compared with what was configured. Coverage counts distinct (service list, mode, learn, query) states.")
{
  Node::useGlobal = R.chance(15); if (Node::useGlobal) count("global_configuration");
  Geometry g;
  g.events = R.pick({R.range(0, 30), R.range(31, 255)}); g.evs = R.pick({R.range(0, 5), R.range(0, 20), 255}); g.nvs = R.pick({R.range(0, 20), R.range(0, 255)});
  if ((long)g.events * (4 + g.evs) > 7000) g.events = R.range(0, 20);
  std::vector<Svc> rest;
  if (R.chance(75)) rest.push_back(S_NV);
  bool prod = R.chance(70) && g.evs > 0 && g.events > 0, cons = R.chance(70), coe = R.chance(40), teach = R.chance(75) && g.events > 0;
  if (cons) rest.push_back(R.chance(50) ? S_CONS : S_CONSD);
  if (prod) rest.push_back(R.chance(50) ? S_PROD : S_PRODD);
  if (coe) rest.push_back(S_COE);
  if (teach) rest.push_back(R.chance(50) ? S_TEACH : S_TEACHD);
  if (R.chance(30)) rest.push_back(R.chance(50) ? S_LONG : S_LONGEX);
  int hidden = R.pick({0, 0, 1, 2});
  for (int i = 0; i < hidden; i++) rest.push_back(S_HIDDEN);
  bool diag = R.chance(60);
  rest.push_back(diag ? S_MNSD : S_MNS);
  rest.push_back(R.chance(50) ? S_CAN : S_CAND);
  for (size_t i = rest.size(); i > 1; i--) std::swap(rest[i - 1], rest[R.below(i)]);
  if (R.chance(50)) { auto it = std::find_if(rest.begin(), rest.end(), [](Svc s) { return s == S_MNS || s == S_MNSD; }); Svc m = *it; rest.erase(it); rest.insert(rest.begin(), m); }
  g.services = rest;
  g.produced = 0;
  Identity id; id.nn = randomOwn(); id.canid = R.range(1, 99); id.flags = 0;
  bool fresh = R.chance(20);
  if (fresh) { id.mode = MODE_UNINITIALISED; id.nn = 0; id.canid = 0; }
  Node n(g);
  n.preset(id);
  n.ownParams = R.chance(50);
  n.verMaj = R.byte() & 0x7F; n.verMin = R.pick({'a', 'c', 'z'}); n.verBeta = R.byte() & 0x7F; n.modId = R.byte();
  if (R.chance(40)) n.manu = R.byte();
  for (int i = 0; i < 7; i++) n.name[i] = (unsigned char)R.range('A', 'Z');
  n.boot(); n.drain();
  if (n.lmsEx) n.lmsEx->allocateContexts(1, 32, 1);
  logf("geometry %s nn=%04X diag=%d", g.str().c_str(), id.nn, diag);
  int par[21]; for (int &v : par) v = 0;
  par[0] = 20; par[PAR_MANU] = n.manu >= 0 ? n.manu : MANU_MERG_VLCB; par[PAR_MINVER] = n.verMin; par[PAR_MTYP] = n.modId; par[PAR_EVTNUM] = g.events; par[PAR_EVNUM] = g.evs; par[PAR_NVNUM] = g.nvs;
  par[PAR_MAJVER] = n.verMaj; par[PAR_CPUID] = 50; par[PAR_BUSTYPE] = 1; par[PAR_CPUMID] = par[PAR_CPUMID + 1] = par[PAR_CPUMID + 2] = par[PAR_CPUMID + 3] = '?'; par[PAR_CPUMAN] = CPUM_ATMEL; par[PAR_BETA] = n.verBeta;
  if (!n.ownParams && R.chance(50))
  {
    char nm[5] = "ABCD"; for (int i = 0; i < 4; i++) nm[i] = (char)R.range('0', 'Z');
    int man = R.byte(), cpu = R.byte();
    n.params->setProcessor((byte)man, (byte)cpu, nm);
    par[PAR_CPUID] = cpu; par[PAR_CPUMAN] = man; for (int i = 0; i < 4; i++) par[PAR_CPUMID + i] = nm[i];
  }
  int base = PF_VLCB | (prod ? PF_PRODUCER : 0) | (cons ? PF_CONSUMER : 0) | (coe ? PF_COE : 0);
  int mode = id.mode, stored = id.mode, nn = id.nn; bool lrn = false;
  auto svcId = [&](Svc s) -> int {
    switch (s)
    {
      case S_MNS: case S_MNSD: return 1; case S_NV: return 2; case S_CAN: case S_CAND: return 3; case S_TEACH: case S_TEACHD: return 4; case S_PROD: case S_PRODD: return 5; case S_CONS: case S_CONSD: return 6;
      case S_COE: return 8; case S_LONG: case S_LONGEX: return 17; default: return 0;
    }
  };
  auto diags = [&](Svc s) { switch (s) { case S_MNSD: return 6; case S_CAND: return 18; case S_TEACHD: case S_PRODD: case S_CONSD: return 1; default: return 0; } };
  int steps = R.range(15, 40);
  for (int s = 0; s < steps; s++)
  {
    par[PAR_FLAGS] = base | (mode == MODE_NORMAL ? PF_NORMAL : 0) | (lrn ? PF_LRN : 0);
    state(mix(mix(mode, lrn), par[PAR_FLAGS]));
    switch (R.range(0, 10))
    {
      case 0: case 1:
      {
        int i = R.chance(80) ? R.range(1, 20) : R.pick({21, 22, 127, 128, 255, R.range(21, 255)});
        if (i <= 20) { expect(n, withNN(OPC_RQNPN, nn, {i}), {withNN(OPC_PARAN, nn, {i, par[i]})}, "parameter"); count("param_reads"); }
        else { expect(n, withNN(OPC_RQNPN, nn, {i}), errReply(n, OPC_RQNPN, 1, CMDERR_INV_PARAM_IDX), "parameter-index"); count("param_bad_index"); }
        break;
      }
      case 2:
      {
        std::vector<Msg> want; for (int i = 0; i <= 20; i++) want.push_back(withNN(OPC_PARAN, nn, {i, par[i]}));
        auto got = expect(n, withNN(OPC_RQNPN, nn, {0}), want, "all-parameters");
        if (got != want) violation("all-parameters-order", "parameters listed as %s", str(got).c_str());
        count("param_lists");
        break;
      }
      case 3:
        if (mode == MODE_SETUP) { expect(n, {OPC_RQNP}, {Msg{OPC_PARAMS, par[PAR_MANU], par[PAR_MINVER], par[PAR_MTYP], par[PAR_EVTNUM], par[PAR_EVNUM], par[PAR_NVNUM], par[PAR_MAJVER]}}, "params"); count("params_in_setup"); }
        else expect(n, {OPC_RQNP}, {}, "params-outside-setup");
        break;
      case 4:
        if (nn) { expect(n, {OPC_QNN}, {withNN(OPC_PNN, nn, {par[PAR_MANU], par[PAR_MTYP], par[PAR_FLAGS]})}, "pnn"); count("pnn"); }
        else expect(n, {OPC_QNN}, {}, "pnn-without-number");
        break;
      case 5:
      {
        Msg want({OPC_NAME}); for (int i = 0; i < 7; i++) want.d[want.len++] = n.name[i];
        if (mode == MODE_SETUP || lrn) { expect(n, {OPC_RQMN}, {want}, "name"); count("name"); }
        else expect(n, {OPC_RQMN}, {}, "name-outside-setup");
        break;
      }
      case 6: case 7:
      {
        std::vector<Msg> want; int exposed = 0;
        for (Svc v : g.services) exposed += svcId(v) != 0;
        want.push_back(withNN(OPC_SD, nn, {0, 0, exposed}));
        for (size_t i = 0; i < g.services.size(); i++) if (svcId(g.services[i])) want.push_back(withNN(OPC_SD, nn, {(int)i + 1, svcId(g.services[i]), n.list[i]->getServiceVersionID()}));
        auto got = expect(n, withNN(OPC_RQSD, nn, {0}), want, "service-list");
        if (got[0] != want[0]) violation("service-count-first", "services listed as %s", str(got).c_str());
        count("service_lists");
        // each discovered index works in later requests
        for (auto &m : got) if (m.d[3] != 0 && R.chance(50))
        {
          Svc v = g.services[m.d[3] - 1];
          auto e = n.ask(withNN(OPC_RQSD, nn, {m.d[3]}));
          observe(e.size());
          if (e.size() != 1 || e[0].op() != OPC_ESD || e[0].len != 8 || e[0].nn() != nn || e[0].d[3] != m.d[3] || e[0].d[4] != m.d[4]) violation("service-detail", "RQSD %d answered %s", m.d[3], str(e).c_str());
          if (diag)
          {
            auto d = n.ask(withNN(OPC_RDGN, nn, {m.d[3], 0}));
            int k = diags(v);
            bool ok = d.size() == (size_t)k + 1;
            for (size_t i = 0; ok && i < d.size(); i++) ok = d[i].op() == OPC_DGN && d[i].nn() == nn && d[i].d[3] == m.d[3] && d[i].d[4] == i;
            if (!ok) violation("service-index-diagnostics", "RDGN for discovered service %d (type %d) answered %s", m.d[3], m.d[4], str(d).c_str());
            count("index_used");
          }
        }
        break;
      }
      case 8:
      {
        int i = R.pick({R.range(1, (int)g.services.size()), (int)g.services.size() + 1, R.range((int)g.services.size() + 1, 255), 255, 128});
        int t = i <= (int)g.services.size() ? svcId(g.services[i - 1]) : 0;
        auto got = n.ask(withNN(OPC_RQSD, nn, {i}));
        observe(got.size());
        if (t) { if (got.size() != 1 || got[0].op() != OPC_ESD || got[0].d[3] != i || got[0].d[4] != t) violation("service-detail", "RQSD %d answered %s", i, str(got).c_str()); count("esd"); }
        else { if (got.size() != 1 || got[0] != grsp(n, OPC_RQSD, 1, GRSP_INVALID_SERVICE)) violation("invalid-service", "RQSD %d answered %s", i, str(got).c_str()); count("invalid_service"); }
        break;
      }
      case 9:
        if (!teach) break;
        lrn = R.chance(60);
        if (R.chance(50)) n.ask(withNN(lrn ? OPC_NNLRN : OPC_NNULN, nn)); else n.ask(withNN(OPC_MODE, nn, {lrn ? MODE_LEARN_ON : MODE_LEARN_OFF}));
        count("learn_changes");
        break;
      case 10:
        count("mode_changes");
        if (mode == MODE_NORMAL) { if (R.chance(70)) { n.ask(withNN(OPC_MODE, nn, {MODE_SETUP})); mode = MODE_SETUP; } else if (R.chance(40)) { n.ctl->putAction(VLCB::ACT_CHANGE_MODE); n.drain(); mode = stored = MODE_UNINITIALISED; nn = 0; } }
        else if (mode == MODE_UNINITIALISED) { n.ctl->putAction(VLCB::ACT_CHANGE_MODE); n.drain(); sim::now += 200; n.drain(); mode = MODE_SETUP; }
        else if (R.chance(40)) { n.ask({OPC_RQNN, 0, 9}); mode = stored; }
        else { nn = randomOwn(); n.ask(withNN(OPC_SNN, nn)); mode = stored = MODE_NORMAL; }
        break;
    }
  }
}

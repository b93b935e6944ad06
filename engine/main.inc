static std::string jesc(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) r += ' ';
    else r += c;
  }
  return r;
}
static std::string jinputs(const std::vector<std::pair<unsigned, u64>>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::string("[") + std::to_string(v[i].first) + "," + std::to_string(v[i].second) + "]";
  return r + "]";
}
int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--entry") optEntry = next();
    else if (a == "--out") optOut = next();
    else if (a == "--time") optTime = atof(next().c_str());
    else if (a == "--max-paths") optMaxPaths = strtoull(next().c_str(), 0, 0);
    else if (a == "--max-steps") optMaxSteps = strtoull(next().c_str(), 0, 0);
    else if (a == "--max-viol") optMaxViol = strtoull(next().c_str(), 0, 0);
    else if (a == "--samples") optSamples = strtoull(next().c_str(), 0, 0);
    else if (a == "--seed") optSeed = strtoull(next().c_str(), 0, 0);
    else if (a == "--qtimeout") g_queryTimeoutMs = (unsigned)atoi(next().c_str());
    else if (a == "--dump") g_dumpDir = next();
    else if (a == "--dump-max") g_dumpMax = strtoull(next().c_str(), 0, 0);
    else if (a == "--dump-every") g_dumpEvery = strtoull(next().c_str(), 0, 0);
    else if (a == "--paranoid") optParanoid = true;
    else if (a == "--fork-sites") optForkSites = true;
    else if (a == "--audit") optAudit = strtoull(argv[++i], 0, 0);
    else if (a == "--nofast") optNoFast = true;
    else if (a == "--trace") optTrace = true;
    else if (a == "--param") {
      std::string p = next();
      size_t e = p.find('=');
      optParams[p.substr(0, e)] = strtoull(p.c_str() + e + 1, 0, 0);
    } else optFile = a;
  }
  Exec X;
  X.rng.seed(optSeed);
  SMDiagnostic D;
  X.M = parseIRFile(optFile, D, X.C);
  if (!X.M) { D.print("symir", errs()); return 3; }
  X.DL = &X.M->getDataLayout();
  solverInit();
  Function* H = X.M->getFunction(optEntry);
  if (!H) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 3; }
  State* s = new State();
  auto m = std::make_shared<Model>();
  m->stamp = newModelStamp();
  s->model = m;
  X.S = s;
  try {
    X.initGlobals(*s);
    X.pushFrame(*s, X.decode(H), {}, -1);
    // static constructors run before the harness
    if (auto* G = X.M->getNamedGlobal("llvm.global_ctors"))
      if (auto* A = dyn_cast_or_null<ConstantArray>(G->getInitializer()))
        for (unsigned i = A->getNumOperands(); i-- > 0;)
          if (auto* F = dyn_cast<Function>(cast<ConstantStruct>(A->getOperand(i))->getOperand(1)->stripPointerCasts()))
            X.pushFrame(*s, X.decode(F), {}, -1, 2);
    X.work.push_back(s);
  } catch (PathEnd&) {
  }
  while (!X.work.empty() && X.inconclusive.empty() && X.viols.size() < optMaxViol && X.vpaths < 200) {
    if (X.paths >= optMaxPaths) { X.inconclusive = "path limit reached"; break; }
    State* st = X.work.back();
    X.work.pop_back();
    X.runState(st);
  }
  double wall = nowS() - X.t0;
  std::string st = !X.viols.empty() ? "violation" : !X.inconclusive.empty() ? "inconclusive" : "ok";
  std::string j = "{\n";
  auto num = [&](const char* k, u64 v) { j += "\"" + std::string(k) + "\":" + std::to_string(v) + ",\n"; };
  j += "\"status\":\"" + st + "\",\n\"reason\":\"" + jesc(X.inconclusive) + "\",\n";
  num("paths", X.paths); num("completed", X.completed); num("killed_by_assumption", X.killed); num("forks", X.forks);
  num("instructions", X.steps); num("symbolic_branches", X.symBranches); num("decided_by_order_closure", X.impliedFast);
  num("concretizations", X.concretized); num("memory_accesses_checked", X.memChecks); num("uninit_bytes_read", X.uninitReads);
  num("assertions", X.oblTotal); num("assertions_by_simplification", X.oblConst); num("assertions_by_solver", X.oblSolver);
  num("max_path_condition", X.maxPC); num("pending", X.work.size()); num("expressions", numExprs());
  num("queries", g_ss.queries); num("sat", g_ss.sat); num("unsat", g_ss.unsat); num("unknown", g_ss.unknown);
  num("fallback", g_ss.fallback); num("queries_in_order_fragment", g_ss.ints); num("queries_in_linear_fragment", g_ss.lin); num("dumped", g_ss.dumped); num("paranoid_checks", g_ss.paranoid);
  j += "\"solver_s\":" + std::to_string(g_ss.time) + ",\n\"max_query_s\":" + std::to_string(g_ss.maxTime) + ",\n\"wall_s\":" + std::to_string(wall) + ",\n";
  j += "\"covers\":{";
  bool first = true;
  for (auto& c : X.covers) { j += (first ? "" : ",") + std::string("\"") + jesc(c.first) + "\":" + std::to_string(c.second); first = false; }
  j += "},\n\"violations\":[";
  first = true;
  for (auto& v : X.viols) {
    j += (first ? "" : ",") + std::string("{\"kind\":\"") + jesc(v.kind) + "\",\"msg\":\"" + jesc(v.msg) + "\",\"key\":\"" + jesc(v.key) + "\",\"stack\":[";
    for (size_t i = 0; i < v.stack.size(); i++) j += (i ? ",\"" : "\"") + jesc(v.stack[i]) + "\"";
    j += "],\"inputs\":" + jinputs(v.inputs) + "}\n";
    first = false;
  }
  j += "],\n\"samples\":[";
  first = true;
  for (auto& v : X.samples) {
    j += (first ? "" : ",") + std::string("{\"digest\":\"") + std::to_string(v.digest) + "\",\"nobs\":" + std::to_string(v.nobs) + ",\"inputs\":" + jinputs(v.inputs) + "}\n";
    first = false;
  }
  // library functions and lines executed, including inlined ones
  std::map<std::string, std::set<unsigned>> lines;
  std::set<std::string> fns;
  for (auto& p : X.funcs)
    for (auto& d : p.second->ins)
      if (d.hit)
        for (const DILocation* L = d.loc; L; L = L->getInlinedAt()) {
          std::string fi = L->getFilename().str();
          if (fi.find("fast_containers/") == std::string::npos) continue;
          fi = fi.substr(fi.rfind('/') + 1);
          if (L->getLine()) lines[fi].insert(L->getLine());
          if (auto* SP = L->getScope()->getSubprogram()) fns.insert(fi + ":" + SP->getName().str());
        }
  j += "],\n\"functions\":[";
  first = true;
  for (auto& f : fns) { j += (first ? "\"" : ",\"") + jesc(f) + "\""; first = false; }
  j += "],\n\"lines\":{";
  first = true;
  for (auto& f : lines) {
    j += (first ? "" : ",") + std::string("\"") + jesc(f.first) + "\":[";
    bool f2 = true;
    for (unsigned l : f.second) { j += (f2 ? "" : ",") + std::to_string(l); f2 = false; }
    j += "]";
    first = false;
  }
  j += "}\n}\n";
  if (optOut.empty()) fputs(j.c_str(), stdout);
  else {
    FILE* o = fopen(optOut.c_str(), "w");
    fputs(j.c_str(), o);
    fclose(o);
  }
  if (optForkSites) { std::vector<std::pair<u64,std::string>> v; for (auto& x : X.forkSites) v.push_back({x.second, x.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) printf("%8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  fflush(stdout);
  _Exit(st == "ok" ? 0 : st == "violation" ? 1 : 2);
}

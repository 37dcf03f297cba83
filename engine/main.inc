static std::string js(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
int main(int argc, char **argv) {
  std::string in, out; std::vector<std::string> entries; bool debug = false; int tune = 0; double tl = 600; uint64_t maxSteps = 50000000; int bound = 0; int merge = 0;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "-o") out = argv[++i]; else if (a == "-e") entries.push_back(argv[++i]); else if (a == "-d") debug = true; else if (a == "-T") tune = atoi(argv[++i]); else if (a == "-b") bound = atoi(argv[++i]); else if (a == "-M") merge = atoi(argv[++i]); else if (a == "-t") tl = atof(argv[++i]); else in = a; }
  LLVMContext C; SMDiagnostic E; auto M = parseIRFile(in, E, C); if (!M) { E.print("ai", errs()); return 2; }
  An an(*M); an.debug = debug; an.tuning = tune; an.maxSteps = maxSteps; an.bound = bound; if (bound) an.mergeAt = (size_t)-1; if (merge) an.mergeAt = (size_t)merge;
  if (entries.empty()) for (auto &f : *M) if (!f.isDeclaration() && f.getName().startswith("h_")) entries.push_back(f.getName().str());
  std::string J = "{\"entries\":["; bool first = true; bool allok = true;
  for (auto &e : entries) {
    Function *F = M->getFunction(e); std::string err; double t0 = An::now(); size_t nret = 0; uint64_t st0 = an.steps;
    if (!F || F->isDeclaration()) err = "entry not found";
    else {
      an.curEntry = e; an.quiet = 0; an.deadline = t0 + tl; an.steps = 0;
      try {
        State S; Frame fr; fr.F = F; fr.info = &an.info(F); fr.env.resize(fr.info->n); S.fr.push_back(fr);
        An::Out o; std::vector<State> v; v.push_back(S); an.runRegion(nullptr, &F->getEntryBlock(), v, o);
        nret = o.rets.size(); for (auto &r : o.rets) an.popFrame(r);
        if (!nret) err = "no path reaches the end of the entry";
      } catch (Budget &b) { err = b.why; } catch (Ovf &) { err = "arithmetic range of the analysis exceeded"; } catch (Infeasible &) { err = "infeasible"; } catch (PathEnd &) { err = "pathend"; } catch (Split &) { err = "split escaped"; } catch (Choose &) { err = "choice escaped"; }
    }
    if (!err.empty()) allok = false;
    double dt = An::now() - t0; if (!first) J += ","; first = false;
    J += "\n{\"name\":" + js(e) + ",\"error\":" + js(err) + ",\"end_states\":" + std::to_string(nret) + ",\"steps\":" + std::to_string(an.steps) + ",\"wall\":" + std::to_string(dt) + ",\"reached\":["; bool f2 = true; for (auto &r : an.reached[e]) { if (!f2) J += ","; f2 = false; J += js(r); } J += "]}";
    (void)st0; if (debug || getenv("AI_V")) fprintf(stderr, "%-44s %6.2fs steps %8llu states %zu LP %llu %s\n", e.c_str(), dt, (unsigned long long)an.steps, nret, (unsigned long long)nLP, err.c_str());
  }
  J += "],\n\"obligations\":["; first = true;
  for (auto &o : an.obs) { if (!first) J += ","; first = false; J += "\n{\"cat\":" + js(o.first.first) + ",\"site\":" + js(o.first.second) + ",\"n\":" + std::to_string(o.second.n) + ",\"bad\":" + std::to_string(o.second.bad) + "}"; }
  J += "],\n\"alarms\":["; first = true;
  for (auto &p : an.alarms) { auto &a = p.second; if (!first) J += ","; first = false; J += "\n{\"cat\":" + js(a.cat) + ",\"file\":" + js(a.file) + ",\"line\":" + std::to_string(a.line) + ",\"func\":" + js(a.func) + ",\"msg\":" + js(a.msg) + ",\"entry\":" + js(a.entry) + ",\"definite\":" + (a.definite ? "true" : "false") + ",\"api\":" + js(a.lastRet) + ",\"stack\":["; for (size_t k = 0; k < a.stack.size(); k++) J += (k ? "," : "") + js(a.stack[k]); J += "],\"trace\":["; for (size_t k = 0; k < a.trace.size(); k++) J += (k ? "," : "") + js(a.trace[k]); J += "]}"; if (debug) fprintf(stderr, "ALARM%s %s %s:%d %s: %s [%s after %s]\n%s\n", a.definite ? "" : "?", a.cat.c_str(), a.file.c_str(), a.line, a.func.c_str(), a.msg.c_str(), a.entry.c_str(), a.lastRet.c_str(), a.state.c_str()); else if (getenv("AI_V")) fprintf(stderr, "ALARM%s %s %s:%d %s: %s [%s after %s]\n", a.definite ? "" : "?", a.cat.c_str(), a.file.c_str(), a.line, a.func.c_str(), a.msg.c_str(), a.entry.c_str(), a.lastRet.c_str()); }
  J += "],\n\"coverage\":["; first = true;
  for (auto &f : *M) if (!f.isDeclaration()) { auto *sp = f.getSubprogram(); if (!sp) continue; std::string file = sp->getFilename().str(); size_t n = 0, c = 0; for (auto &b : f) { n++; if (an.covered.count(&b)) c++; } if (!first) J += ","; first = false; J += "\n{\"func\":" + js(f.getName().str()) + ",\"file\":" + js(file) + ",\"blocks\":" + std::to_string(n) + ",\"covered\":" + std::to_string(c) + "}"; }
  J += "],\n\"unmodelled\":["; first = true; for (auto &u : an.unmodelled) { if (!first) J += ","; first = false; J += js(u); }
  J += "],\n\"stats\":{\"lp\":" + std::to_string(nLP) + ",\"entailments\":" + std::to_string(nEnt) + ",\"joins\":" + std::to_string(an.nJoins) + ",\"loops\":" + std::to_string(an.nLoops) + ",\"splits\":" + std::to_string(an.nSplits) + ",\"lp_overflow\":" + std::to_string(nOvf) + ",\"lp_big\":" + std::to_string(nBig) + "}}\n";
  if (out.empty()) std::cout << J; else { FILE *f = fopen(out.c_str(), "w"); if (!f) return 2; fputs(J.c_str(), f); fclose(f); }
  return allok ? 0 : 2;
}

// Last lines of a program harness: needs enumerate and run.
static int harness_main(int c, char** v) { vh::cnt_names()[0] = "executions"; vh::cnt_names()[1] = "nontrivial"; char d[] = "/tmp/vc31XXXXXX"; if (!mkdtemp(d)) return 2; TOP = d; setenv("OMP_NUM_THREADS", "1", 1); int r = vh::main_(c, v, enumerate, run);
    if (DIR* D = opendir(TOP.c_str())) { while (dirent* e = readdir(D)) if (e->d_name[0] == 'w') { Str s = TOP + "/" + e->d_name; if (DIR* E = opendir(s.c_str())) { while (dirent* f = readdir(E)) if (f->d_name[0] != '.') unlink((s + "/" + f->d_name).c_str()); closedir(E); } rmdir(s.c_str()); } closedir(D); } rmdir(TOP.c_str()); return r; }
// main is the one of the program: only that one may end without a return statement. The harness runs in front of it.
static struct Starter { Starter() { static std::vector<Str> a; static std::vector<char*> p; std::ifstream f("/proc/self/cmdline"); Str s; while (std::getline(f, s, '\0')) a.push_back(s); for (auto& x : a) p.push_back(&x[0]); p.push_back(nullptr); exit(harness_main(a.size(), p.data())); } } starter;

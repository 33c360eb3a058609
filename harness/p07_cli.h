// Shared option-table test; included after the CommandLine.h under test.
#include <sys/wait.h>
#include <fcntl.h>
using namespace pbt;

struct Opt { int kind; std::string name, def; };   // 0 bool 1 string 2 int 3 double 4 delta time 5 fixed time
struct Vals { std::vector<char> b; std::vector<std::string> s; std::vector<int> i; std::vector<double> d; };

// Runs fn in a child; returns its output, and its exit status through st.
static std::string inChild(std::function<std::string()> fn, int & st) {
	int p[2]; if (pipe(p)) abort();
	pid_t pid = fork();
	if (pid == 0) {
		close(p[0]);
		int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
		std::string r;
		try { r = fn(); } catch (Exception & e) { _exit(77); } catch (...) { _exit(78); }
		size_t o = 0; while (o < r.size()) { ssize_t n = write(p[1], r.data() + o, r.size() - o); if (n <= 0) break; o += n; }
		_exit(0);
	}
	close(p[1]);
	std::string out; char buf[4096]; ssize_t n;
	while ((n = read(p[0], buf, sizeof(buf))) > 0) out.append(buf, n);
	close(p[0]);
	int w; waitpid(pid, &w, 0);
	st = WIFEXITED(w) ? WEXITSTATUS(w) : 1000 + WTERMSIG(w);
	return out;
}
static std::string rword(Src & s, int lo, int hi, const char * alpha) {
	std::string r; int n = (int)s.irange(lo, hi); size_t m = strlen(alpha);
	for (int i = 0; i < n; i++) r += alpha[s.draw(m - 1)];
	return r;
}
static const char * NAMECH = "abcdefghijklmnopqrstuvwxyz_0123456789";
// Any text; values that begin with two dashes and a letter are options by definition.
static std::string rvalue(Src & s) {
	std::string v = s.coin(1, 8) ? std::string("-") + rword(s, 0, 4, "ab1.5-") : rword(s, 0, 12, "abcXYZ019 ./=_-:#\"'\\%s");
	if (v.size() > 2 && v[0] == '-' && v[1] == '-') v = "x" + v;
	return v;
}
struct Expect { std::string text; };

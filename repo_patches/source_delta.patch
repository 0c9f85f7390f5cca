From a81c58e4ee5bae4fb6b8a465ffee57102ee675b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 01/39] Simulation hook: garbage collection points (guarded by
 MZN_SIMULATION)

---
 lib/gc.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/lib/gc.cpp b/lib/gc.cpp
index 7c7faaa..851a56e 100644
--- a/lib/gc.cpp
+++ b/lib/gc.cpp
@@ -19,6 +19,11 @@
 #include <cstring>
 #include <vector>
 
+#ifdef MZN_SIMULATION
+// Deterministic simulation: asked at every point where a collection may start; non-zero starts one.
+extern "C" int mzn_sim_gc_point();
+#endif
+
 namespace MiniZinc {
 
 // GC::gc() is defined inline in gc.hh (hot path).
@@ -354,6 +359,11 @@ void GC::lock() {
     g = new GC();
   }
   if (g->_lockCount == 0) {
+#ifdef MZN_SIMULATION
+    if (mzn_sim_gc_point() != 0) {
+      g->_heap->trigger();
+    }
+#endif
     g->_heap->rungc();
   }
   g->_lockCount++;
@@ -513,6 +523,9 @@ void GC::Heap::sweep() {
   fixVDGCMarks.reserve(1000);
   std::vector<HeapPage*> toFree;
   toFree.reserve(1000);
+#ifdef MZN_SIMULATION
+  std::vector<FreeListNode*> simFreed;
+#endif
   while (p != nullptr) {
     size_t off = 0;
     // wholepage: this page contains no genuinely live node (only dead nodes and/or
@@ -627,6 +640,9 @@ void GC::Heap::sweep() {
         new (fln) FreeListNode(ni.ns, _fl[freelistSlot(ni.ns)]);
         _fl[freelistSlot(ni.ns)] = fln;
         _freeMem += ni.ns;
+#ifdef MZN_SIMULATION
+        simFreed.push_back(fln);
+#endif
 #ifdef MINIZINC_GC_STATS
         gc_stats[fln->_id].second++;
 #endif
@@ -651,8 +667,14 @@ void GC::Heap::sweep() {
       }
     }
   }
+#ifdef MZN_SIMULATION
+  // Collected memory must not be looked at again: make sure that it does not look intact
+  for (auto* fln : simFreed) {
+    memset(static_cast<void*>(fln + 1), 0xd5, fln->size - sizeof(FreeListNode));
+  }
+#endif
   for (auto* pf : toFree) {
-#ifndef NDEBUG
+#if !defined(NDEBUG) || defined(MZN_SIMULATION)
     memset(pf->data, 42, pf->size);
 #endif
     ::free(pf);
-- 
2.43.0


From 435a35ef27e42a3ba40ce5927639af98883ef43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 02/39] fix: check the results of pipe, fork and read when
 running a solver

A failed fork was taken for the parent branch with process id -1 (so time-outs
signalled every process), and a failed read was stored in an unsigned count and
used as an index into the buffer.
---
 include/minizinc/process.hh | 42 ++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/include/minizinc/process.hh b/include/minizinc/process.hh
index 7776bb0..68041d5 100644
--- a/include/minizinc/process.hh
+++ b/include/minizinc/process.hh
@@ -24,7 +24,9 @@
 #include <unistd.h>
 #endif
 #include <condition_variable>
+#include <cerrno>
 #include <csignal>
+#include <cstring>
 #include <deque>
 #include <mutex>
 #include <string>
@@ -332,11 +334,27 @@ public:
   }
 #else
     int pipes[3][2];
-    pipe(pipes[0]);
-    pipe(pipes[1]);
-    pipe(pipes[2]);
+    for (int i = 0; i < 3; ++i) {
+      if (pipe(pipes[i]) == -1) {
+        int err = errno;
+        for (int j = 0; j < i; ++j) {
+          close(pipes[j][0]);
+          close(pipes[j][1]);
+        }
+        throw Error(std::string("Failed to create pipe to solver: ") + strerror(err));
+      }
+    }
 
-    if (int childPID = fork()) {
+    int childPID = fork();
+    if (childPID == -1) {
+      int err = errno;
+      for (auto& p : pipes) {
+        close(p[0]);
+        close(p[1]);
+      }
+      throw Error(std::string("Failed to create solver process: ") + strerror(err));
+    }
+    if (childPID != 0) {
       close(pipes[0][0]);
       close(pipes[1][1]);
       close(pipes[2][1]);
@@ -374,7 +392,9 @@ public:
           if (FD_ISSET(pipes[1][0], &ifdset)) {
             char buffer[1000];
             ssize_t count = read(pipes[1][0], buffer, sizeof(buffer) - 1);
-            if (count > 0) {
+            if (count == -1 && (errno == EINTR || errno == EAGAIN)) {
+              // interrupted, try again
+            } else if (count > 0) {
               buffer[count] = 0;
               try {
                 _pS2Out->feedRawDataChunk(buffer);
@@ -391,7 +411,9 @@ public:
           if (watchErr && FD_ISSET(pipes[2][0], &ifdset)) {
             char buffer[1000];
             ssize_t count = read(pipes[2][0], buffer, sizeof(buffer) - 1);
-            if (count > 0) {
+            if (count == -1 && (errno == EINTR || errno == EAGAIN)) {
+              // interrupted, try again
+            } else if (count > 0) {
               buffer[count] = 0;
               _pS2Out->getLog() << buffer << std::flush;
             } else {
@@ -519,8 +541,12 @@ public:
         for (int i = 1; i <= 2; ++i) {
           if (FD_ISSET(pipes[i][0], &fdset)) {
             char buffer[1000];
-            size_t count = read(pipes[i][0], buffer, sizeof(buffer) - 1);
-            if (count > 0) {
+            ssize_t count = read(pipes[i][0], buffer, sizeof(buffer) - 1);
+            if (count == -1) {
+              if (errno != EINTR && errno != EAGAIN) {
+                throw Error(std::string("Error in communication with solver: ") + strerror(errno));
+              }
+            } else if (count > 0) {
               buffer[count] = 0;
               if (1 == i) {
                 //                       cerr << "mzn-fzn: raw chunk stdout:::  " << flush;
-- 
2.43.0


From 9cc0d3c6aa831225af651350efb877608dfd48bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 03/39] fix: a child that cannot start the solver must not
 unwind the driver's state

The exception thrown in the forked copy removed the parent's temporary files and
printed the driver's output and status a second time into the pipe.
---
 include/minizinc/process.hh | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/minizinc/process.hh b/include/minizinc/process.hh
index 68041d5..02f5a43 100644
--- a/include/minizinc/process.hh
+++ b/include/minizinc/process.hh
@@ -596,12 +596,27 @@ public:
       }
       return exitStatus;
     }
+    // From here on this is the child. It must not unwind the copied state of the driver (which would
+    // remove temporary files and print output again), so report errors directly and leave.
+    auto fail = [](const std::string& msg) {
+      const char* data = msg.c_str();
+      size_t left = msg.size();
+      while (left > 0) {
+        ssize_t written = write(STDERR_FILENO, data, left);
+        if (written == -1) {
+          break;
+        }
+        data += written;
+        left -= written;
+      }
+      _exit(EXIT_FAILURE);
+    };
     if (!_interactive) {
       // Isolate the child in its own process group so the parent can signal the
       // whole group on time-out. In interactive mode the child must stay in the
       // terminal's foreground group, otherwise reading the tty raises SIGTTIN.
       if (setpgid(0, 0) == -1) {
-        throw Error("Failed to set pgid of subprocess");
+        fail("Error: Failed to set pgid of subprocess\n");
       }
     }
     close(STDOUT_FILENO);
@@ -611,10 +626,13 @@ public:
       // sees EOF. Interactive mode leaves STDIN_FILENO inherited from the parent
       // so the solver reads the user's terminal directly.
       close(STDIN_FILENO);
-      dup2(pipes[0][0], STDIN_FILENO);
+      if (dup2(pipes[0][0], STDIN_FILENO) == -1) {
+        fail("Error: Failed to set up standard input of subprocess\n");
+      }
+    }
+    if (dup2(pipes[2][1], STDERR_FILENO) == -1 || dup2(pipes[1][1], STDOUT_FILENO) == -1) {
+      fail("Error: Failed to set up output of subprocess\n");
     }
-    dup2(pipes[1][1], STDOUT_FILENO);
-    dup2(pipes[2][1], STDERR_FILENO);
     close(pipes[0][0]);
     close(pipes[0][1]);
     close(pipes[1][1]);
@@ -636,12 +654,13 @@ public:
     int status = execvp(argv[0], argv);  // execvp only returns if an error occurs.
     assert(status == -1);                // the returned value will always be -1
     std::stringstream ssm;
-    ssm << "Error occurred when executing FZN solver with command \"";
+    ssm << "Error: Error occurred when executing FZN solver with command \"";
     for (auto& s : cmd_line) {
       ssm << s << ' ';
     }
-    ssm << "\".";
-    throw Error(ssm.str());
+    ssm << "\".\n";
+    fail(ssm.str());
+    return EXIT_FAILURE;
   }
 #endif
 };
-- 
2.43.0


From cd9e30d2159f33ecb686b806665dd4716a76fb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 04/39] fix: do not lose or delay signals while supervising a
 solver

A signal between fork and the installation of the handlers orphaned the solver,
one between the check of the flags and select was only noticed with the next
output of the solver, and after an interrupted select the unmodified descriptor
set led to a read that blocks until the solver prints something.
---
 include/minizinc/process.hh | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/minizinc/process.hh b/include/minizinc/process.hh
index 02f5a43..298d3ca 100644
--- a/include/minizinc/process.hh
+++ b/include/minizinc/process.hh
@@ -345,9 +345,23 @@ public:
       }
     }
 
+    // Signals are only taken while waiting for the solver, so that none is lost between checking for
+    // them and waiting, nor before the handlers are installed.
+    sigset_t blocked_signals;
+    sigset_t old_mask;
+    sigemptyset(&blocked_signals);
+    sigaddset(&blocked_signals, SIGINT);
+    sigaddset(&blocked_signals, SIGTERM);
+    if (!_interactive) {
+      sigprocmask(SIG_BLOCK, &blocked_signals, &old_mask);
+    }
+
     int childPID = fork();
     if (childPID == -1) {
       int err = errno;
+      if (!_interactive) {
+        sigprocmask(SIG_SETMASK, &old_mask, nullptr);
+      }
       for (auto& p : pipes) {
         close(p[0]);
         close(p[1]);
@@ -458,18 +472,22 @@ public:
       bool handledInterrupt = false;
       bool handledTerm = false;
 
-      bool done = hadTerm || hadInterrupt;
+      bool done = false;
       bool timed_out = false;
       while (!done) {
         FD_SET(pipes[1][0], &fdset);
         FD_SET(pipes[2][0], &fdset);
-        int sel =
-            select(FD_SETSIZE, &fdset, nullptr, nullptr, _timelimit == 0 ? nullptr : &timeout);
+        struct timespec wait;
+        wait.tv_sec = timeout.tv_sec;
+        wait.tv_nsec = timeout.tv_usec * 1000L;
+        int sel = pselect(FD_SETSIZE, &fdset, nullptr, nullptr, _timelimit == 0 ? nullptr : &wait,
+                          &old_mask);
         if (sel == -1) {
           if (errno != EINTR) {
             // some error has happened
             throw Error(std::string("Error in communication with solver: ") + strerror(errno));
           }
+          FD_ZERO(&fdset);  // not modified by an interrupted call: nothing is ready
         }
         bool timeoutImmediately = false;
         if (hadInterrupt && !handledInterrupt) {
@@ -586,6 +604,7 @@ public:
           exitStatus = WEXITSTATUS(childStatus);
         }
       }
+      sigprocmask(SIG_SETMASK, &old_mask, nullptr);  // pending signals still reach our handlers
       sigaction(SIGINT, &old_sa_int, nullptr);
       sigaction(SIGTERM, &old_sa_term, nullptr);
       if (hadInterrupt) {
@@ -615,6 +634,7 @@ public:
       // Isolate the child in its own process group so the parent can signal the
       // whole group on time-out. In interactive mode the child must stay in the
       // terminal's foreground group, otherwise reading the tty raises SIGTTIN.
+      sigprocmask(SIG_SETMASK, &old_mask, nullptr);
       if (setpgid(0, 0) == -1) {
         fail("Error: Failed to set pgid of subprocess\n");
       }
-- 
2.43.0


From 00c1acb5400edfe670b700854fde7debdea121d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 05/39] fix: measure solver time limits with the monotonic
 clock

Setting the system clock forward ended the solver early, setting it back
suspended the time limit.
---
 include/minizinc/process.hh | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/minizinc/process.hh b/include/minizinc/process.hh
index 298d3ca..92fc8e8 100644
--- a/include/minizinc/process.hh
+++ b/include/minizinc/process.hh
@@ -127,6 +127,13 @@ protected:
     }
   }
   static bool hadTerm;
+  /// Time for measuring limits, not affected by changes of the system clock
+  static void getMonotonicTime(struct timeval* tv) {
+    struct timespec ts;
+    clock_gettime(CLOCK_MONOTONIC, &ts);
+    tv->tv_sec = ts.tv_sec;
+    tv->tv_usec = static_cast<suseconds_t>(ts.tv_nsec / 1000);
+  }
 #endif
   static bool hadInterrupt;
 
@@ -451,7 +458,7 @@ public:
       FD_ZERO(&fdset);  // NOLINT(readability-isolate-declaration)
 
       struct timeval starttime;
-      gettimeofday(&starttime, nullptr);
+      getMonotonicTime(&starttime);
 
       struct timeval timeout_orig;
       timeout_orig.tv_sec = _timelimit / 1000;
@@ -507,14 +514,14 @@ public:
           timeout.tv_usec = 0;
           timeout_orig = timeout;
           timeval currentTime;
-          gettimeofday(&currentTime, nullptr);
+          getMonotonicTime(&currentTime);
           starttime = currentTime;
         }
 
         bool killed = false;
         if (_timelimit != 0) {
           timeval currentTime;
-          gettimeofday(&currentTime, nullptr);
+          getMonotonicTime(&currentTime);
           if (sel != 0) {
             timeval elapsed;
             elapsed.tv_sec = currentTime.tv_sec - starttime.tv_sec;
-- 
2.43.0


From 7c44c94295fc4606e8c0b86ebd79928812876666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 06/39] fix: collect everything a solver writes and its end
 within the time limit

The end of the solver's standard output ended supervision: remaining error
output was lost and a solver that keeps running was waited for without time
limit. Output in the pipe when the solver had to be killed was lost, a closed
error stream caused a busy loop, and an interrupted wait left the process
uncollected.
---
 include/minizinc/process.hh | 77 ++++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 19 deletions(-)

diff --git a/include/minizinc/process.hh b/include/minizinc/process.hh
index 92fc8e8..0179173 100644
--- a/include/minizinc/process.hh
+++ b/include/minizinc/process.hh
@@ -18,13 +18,15 @@
 #include <tchar.h>
 #undef ERROR
 #else
+#include <fcntl.h>
 #include <sys/select.h>
 #include <sys/time.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #endif
-#include <condition_variable>
+#include <algorithm>
 #include <cerrno>
+#include <condition_variable>
 #include <csignal>
 #include <cstring>
 #include <deque>
@@ -455,7 +457,6 @@ public:
       }
 
       fd_set fdset;
-      FD_ZERO(&fdset);  // NOLINT(readability-isolate-declaration)
 
       struct timeval starttime;
       getMonotonicTime(&starttime);
@@ -481,14 +482,37 @@ public:
 
       bool done = false;
       bool timed_out = false;
+      bool isOpen[3] = {false, true, true};  // streams whose end has not been reached
+      int childStatus;
+      int pidStatus = 0;
+      long pollNs = 1000000;
       while (!done) {
-        FD_SET(pipes[1][0], &fdset);
-        FD_SET(pipes[2][0], &fdset);
+        if (!isOpen[1]) {
+          // The solver has closed its output (usually because it has finished): keep forwarding its
+          // error output and supervising it until it has terminated
+          pidStatus = waitpid(childPID, &childStatus, WNOHANG);
+          if (pidStatus > 0 || (pidStatus == -1 && errno != EINTR)) {
+            break;
+          }
+        }
+        FD_ZERO(&fdset);  // NOLINT(readability-isolate-declaration)
+        for (int i = 1; i <= 2; ++i) {
+          if (isOpen[i]) {
+            FD_SET(pipes[i][0], &fdset);
+          }
+        }
         struct timespec wait;
         wait.tv_sec = timeout.tv_sec;
         wait.tv_nsec = timeout.tv_usec * 1000L;
-        int sel = pselect(FD_SETSIZE, &fdset, nullptr, nullptr, _timelimit == 0 ? nullptr : &wait,
-                          &old_mask);
+        bool polling =
+            !isOpen[1] && (_timelimit == 0 || wait.tv_sec > 0 || wait.tv_nsec > pollNs);
+        if (polling) {
+          wait.tv_sec = 0;
+          wait.tv_nsec = pollNs;
+          pollNs = std::min(2 * pollNs, 100000000L);
+        }
+        int sel = pselect(FD_SETSIZE, &fdset, nullptr, nullptr,
+                          _timelimit == 0 && !polling ? nullptr : &wait, &old_mask);
         if (sel == -1) {
           if (errno != EINTR) {
             // some error has happened
@@ -518,11 +542,10 @@ public:
           starttime = currentTime;
         }
 
-        bool killed = false;
         if (_timelimit != 0) {
           timeval currentTime;
           getMonotonicTime(&currentTime);
-          if (sel != 0) {
+          if (sel != 0 || polling) {
             timeval elapsed;
             elapsed.tv_sec = currentTime.tv_sec - starttime.tv_sec;
             elapsed.tv_usec = currentTime.tv_usec - starttime.tv_usec;
@@ -546,7 +569,6 @@ public:
           if (timeout.tv_sec < 0 || (timeout.tv_sec == 0 && timeout.tv_usec == 0)) {
             timed_out = true;
             if (signal == SIGKILL) {
-              killed = true;
               done = true;
             }
             if (killpg(childPID, signal) == -1) {
@@ -562,7 +584,6 @@ public:
           }
         }
 
-        bool addedNl = false;
         for (int i = 1; i <= 2; ++i) {
           if (FD_ISSET(pipes[i][0], &fdset)) {
             char buffer[1000];
@@ -589,23 +610,41 @@ public:
               } else {
                 _pS2Out->getLog() << buffer << std::flush;
               }
-            } else if (1 == i) {
-              _pS2Out->feedRawDataChunk("\n");  // in case last chunk did not end with \n
-              addedNl = true;
-              done = true;
+            } else {
+              isOpen[i] = false;
             }
           }
         }
-        if (killed && !addedNl) {
-          _pS2Out->feedRawDataChunk("\n");  // in case last chunk did not end with \n
-        }
       }
 
+      while (pidStatus <= 0) {
+        pidStatus = waitpid(childPID, &childStatus, 0);
+        if (pidStatus == -1 && errno != EINTR) {
+          break;
+        }
+      }
+      // Process what the solver left in the pipes, without waiting for other holders of their ends
+      for (int i = 1; i <= 2; ++i) {
+        fcntl(pipes[i][0], F_SETFL, fcntl(pipes[i][0], F_GETFL) | O_NONBLOCK);
+        while (isOpen[i]) {
+          char buffer[1000];
+          ssize_t count = read(pipes[i][0], buffer, sizeof(buffer) - 1);
+          if (count > 0) {
+            buffer[count] = 0;
+            if (1 == i) {
+              _pS2Out->feedRawDataChunk(buffer);
+            } else {
+              _pS2Out->getLog() << buffer << std::flush;
+            }
+          } else if (count == 0 || errno != EINTR) {
+            isOpen[i] = false;
+          }
+        }
+      }
+      _pS2Out->feedRawDataChunk("\n");  // in case last chunk did not end with \n
       close(pipes[1][0]);
       close(pipes[2][0]);
       int exitStatus = timed_out ? 0 : 1;
-      int childStatus;
-      int pidStatus = waitpid(childPID, &childStatus, 0);
       if (!timed_out && pidStatus > 0) {
         if (WIFEXITED(childStatus)) {
           exitStatus = WEXITSTATUS(childStatus);
-- 
2.43.0


From c9206e5c46383c6cd0efb951afdca8666481bd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 07/39] fix: print canonicalized solutions of a stream without
 final status

minizinc --canonicalize reading a solution stream from standard input printed
nothing at all unless the stream contained a status message.
---
 lib/solver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/solver.cpp b/lib/solver.cpp
index ab25ec0..ad27307 100644
--- a/lib/solver.cpp
+++ b/lib/solver.cpp
@@ -1080,6 +1080,10 @@ SolverInstance::Status MznSolver::run(const std::vector<std::string>& args0,
       line += '\n';  // need eols as in t=raw stream
       s2out.feedRawDataChunk(line.c_str());
     }
+    if (s2out.opt.flagCanonicalize && !s2out.fStatusPrinted) {
+      // The stream ended without a status: print the solutions collected so far
+      s2out.evalStatus(SolverInstance::NONE);
+    }
     return SolverInstance::NONE;
   }
 
-- 
2.43.0


From 3fe98c7a6fb252116eed30c84a7a1fa12213f802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 08/39] fix: JSON status of a solution stream read with
 --ozn-file (no solve item)

---
 lib/solns2out.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/solns2out.cpp b/lib/solns2out.cpp
index a59a48b..d692b1a 100644
--- a/lib/solns2out.cpp
+++ b/lib/solns2out.cpp
@@ -506,7 +506,9 @@ bool Solns2Out::evalStatusMsg(SolverInstance::Status status) {
       return true;
     case SolverInstance::OPT: {
       if (opt.flagEncapsulateJSON && !opt.searchCompleteMsg.empty()) {
-        bool sat = getEnv()->flat()->solveItem()->st() == SolveI::ST_SAT;
+        // No solve item if only an output specification (--ozn-file) was given
+        SolveI* si = getEnv()->flat()->solveItem();
+        bool sat = si == nullptr || si->st() == SolveI::ST_SAT;
         label = sat ? "ALL_SOLUTIONS" : "OPTIMAL_SOLUTION";
       } else {
         label = opt.searchCompleteMsg;
-- 
2.43.0


From 79862d9f5375f5ea72c92005519dea0d9682a407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 09/39] fix: malformed or cut-off solver statistics must not
 abort the JSON stream

---
 include/minizinc/statistics.hh |  2 ++
 lib/solns2out.cpp              | 27 ++++++++++++++++---------
 lib/statistics.cpp             | 36 +++++++++++++++++++++++++++++++---
 3 files changed, 53 insertions(+), 12 deletions(-)

diff --git a/include/minizinc/statistics.hh b/include/minizinc/statistics.hh
index 5b296cf..6698b48 100644
--- a/include/minizinc/statistics.hh
+++ b/include/minizinc/statistics.hh
@@ -50,6 +50,8 @@ public:
 
   void precision(std::streamsize prec, bool fixed = false);
   void add(const std::string& stat, const Expression* value);
+  /// Report statistic \a text, which has an unsupported form, as ignored
+  void invalid(const std::string& text);
   void add(const std::string& stat, int value);
   void add(const std::string& stat, unsigned int value);
   void add(const std::string& stat, long value);
diff --git a/lib/solns2out.cpp b/lib/solns2out.cpp
index d692b1a..07d93dc 100644
--- a/lib/solns2out.cpp
+++ b/lib/solns2out.cpp
@@ -263,15 +263,24 @@ void Solns2Out::printSolution(std::istream& sol, std::ostream& os, bool outputTi
 }
 
 void Solns2Out::parseStatistics(const std::string& stats, std::ostream& os) {
-  unique_ptr<Model> sm(parse_from_string(*_env, stats, "statistics received from solver",
-                                         _includePaths, false, true, false, false, _log));
-  if (sm == nullptr) {
-    throw Error("solns2out_base: could not parse statistics");
-  }
   StatisticsStream ss(os, opt.flagEncapsulateJSON);
-  for (unsigned int i = 0; i < sm->size(); i++) {
-    if (auto* ai = (*sm)[i]->dynamicCast<AssignI>()) {
-      ss.add(ai->id().c_str(), ai->e());
+  std::istringstream lines(stats);
+  std::string line;
+  while (std::getline(lines, line)) {
+    // The solver may have been stopped in the middle of a line, so ignore what cannot be parsed
+    std::ostringstream errors;
+    unique_ptr<Model> sm;
+    try {
+      sm.reset(parse_from_string(*_env, line + ";", "statistics received from solver",
+                                 _includePaths, false, true, false, false, errors));
+    } catch (const Exception&) {
+      ss.invalid(line);
+      continue;
+    }
+    for (unsigned int i = 0; i < sm->size(); i++) {
+      if (auto* ai = (*sm)[i]->dynamicCast<AssignI>()) {
+        ss.add(ai->id().c_str(), ai->e());
+      }
     }
   }
 }
@@ -708,7 +717,7 @@ bool Solns2Out::feedRawDataChunk(const char* data) {
             }
           } else if (opt.flagEncapsulateJSON) {
             if (is_statistic) {
-              _stats += line.substr(13) + ";";
+              _stats += line.substr(13) + "\n";
             } else if (line == "%%%mzn-stat-end") {
               parseStatistics(_stats, message);
               _stats.clear();
diff --git a/lib/statistics.cpp b/lib/statistics.cpp
index dec9821..a40a91f 100644
--- a/lib/statistics.cpp
+++ b/lib/statistics.cpp
@@ -54,11 +54,41 @@ void StatisticsStream::precision(std::streamsize prec, bool fixed) {
   }
 }
 
+void StatisticsStream::invalid(const std::string& text) {
+  _warnings.emplace_back(new Warning("invalid statistic %%%mzn-stat: " + text + " ignored."));
+}
+
+namespace {
+/// Whether the printed form of \a e is also valid JSON
+bool is_json_value(const Expression* e) {
+  if (const auto* fl = Expression::dynamicCast<FloatLit>(e)) {
+    return FloatLit::v(fl).isFinite();
+  }
+  if (const auto* uo = Expression::dynamicCast<UnOp>(e)) {
+    return uo->op() == UOT_MINUS &&
+           (Expression::isa<IntLit>(uo->e()) || Expression::isa<FloatLit>(uo->e()));
+  }
+  if (const auto* al = Expression::dynamicCast<ArrayLit>(e)) {
+    if (al->dims() != 1 || al->isTuple()) {
+      return false;
+    }
+    for (unsigned int i = 0; i < al->size(); i++) {
+      if (!is_json_value((*al)[i])) {
+        return false;
+      }
+    }
+    return true;
+  }
+  return Expression::isa<IntLit>(e) || Expression::isa<BoolLit>(e) ||
+         Expression::isa<StringLit>(e);
+}
+}  // namespace
+
 void StatisticsStream::add(const std::string& stat, const Expression* value) {
-  if (Expression::isa<Id>(value)) {
+  if (Expression::isa<Id>(value) || (_json && !is_json_value(value))) {
     std::stringstream ss;
-    ss << "invalid statistic %%%mzn-stat: " << stat << "=" << *value << " ignored.";
-    _warnings.emplace_back(new Warning(ss.str()));
+    ss << stat << "=" << *value;
+    invalid(ss.str());
   } else {
     addInternal(stat, *value);
   }
-- 
2.43.0


From 92a146e3227c4c0b87a9ed3620b7f770ced2a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 10/39] fix: JSON messages must not contain raw control
 characters or invalid UTF-8

---
 include/minizinc/prettyprinter.hh |  4 ++++
 lib/astexception.cpp              |  4 ++--
 lib/builtins.cpp                  |  8 +++++---
 lib/exception.cpp                 |  4 ++--
 lib/prettyprinter.cpp             | 34 +++++++++++++++++++++++++++++++
 lib/solns2out.cpp                 |  4 ++--
 lib/stackdump.cpp                 |  2 +-
 lib/statistics.cpp                |  9 +++++---
 lib/warning.cpp                   |  2 +-
 9 files changed, 57 insertions(+), 14 deletions(-)

diff --git a/include/minizinc/prettyprinter.hh b/include/minizinc/prettyprinter.hh
index d85acfd..eb15cd1 100644
--- a/include/minizinc/prettyprinter.hh
+++ b/include/minizinc/prettyprinter.hh
@@ -69,6 +69,10 @@ public:
     return ret.str();
   }
 
+  /// Escape \a s for a JSON string: unlike in MiniZinc string literals, control characters are not
+  /// allowed, and everything else must be UTF-8 (invalid bytes become U+FFFD)
+  static std::string escapeJSONString(const std::string& s);
+
   template <class S>
   static std::string quoteId(const S& s) {
     char idChars[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_";
diff --git a/lib/astexception.cpp b/lib/astexception.cpp
index d0bc988..fff2263 100644
--- a/lib/astexception.cpp
+++ b/lib/astexception.cpp
@@ -41,7 +41,7 @@ void SyntaxError::json(std::ostream& os) const {
     }
     os << "], ";
   }
-  os << "\"message\": \"" << Printer::escapeStringLit(msg()) << "\"}" << std::endl;
+  os << "\"message\": \"" << Printer::escapeJSONString(msg()) << "\"}" << std::endl;
 }
 
 void CyclicIncludeError::print(std::ostream& os) const {
@@ -84,7 +84,7 @@ void LocationException::print(std::ostream& os) const {
 void LocationException::json(std::ostream& os) const {
   os << "{\"type\": \"error\", \"what\": \"" << Printer::escapeStringLit(std::string(what()))
      << "\", \"location\": " << loc().toJSON() << ", \"message\": \""
-     << Printer::escapeStringLit(msg()) << "\"";
+     << Printer::escapeJSONString(msg()) << "\"";
   if (_dumpStack && !_stack->empty()) {
     os << ", \"stack\": ";
     _stack->json(os);
diff --git a/lib/builtins.cpp b/lib/builtins.cpp
index 6c26c53..49a8679 100644
--- a/lib/builtins.cpp
+++ b/lib/builtins.cpp
@@ -2080,7 +2080,7 @@ Expression* b_trace_exp(EnvI& env, Call* call) {
     p.trace(call->arg(0));
     env.outstream
         << "{\"type\": \"trace\", \"section\": \"trace_exp\", \"message\": { \"message\": \"";
-    env.outstream << Printer::escapeStringLit(oss.str()) << "\", \"location\": {";
+    env.outstream << Printer::escapeJSONString(oss.str()) << "\", \"location\": {";
     env.outstream << "\"filename\": \""
                   << Printer::escapeStringLit(Expression::loc(call).filename()) << "\", ";
     env.outstream << "\"firstLine\": " << Expression::loc(call).firstLine() << ", ";
@@ -2127,7 +2127,7 @@ Expression* b_trace_stdout(EnvI& env, Call* call) {
   }
   if (env.fopts.encapsulateJSON) {
     env.outstream << "{\"type\": \"trace\", \"section\": \"default\", \"message\": \""
-                  << Printer::escapeStringLit(eval_string(env, msg_e)) << "\"}" << std::endl;
+                  << Printer::escapeJSONString(eval_string(env, msg_e)) << "\"}" << std::endl;
   } else {
     env.outstream << eval_string(env, msg_e);
   }
@@ -2158,7 +2158,7 @@ bool b_trace_to_section(EnvI& env, Call* call) {
         env.outstream << line;
       }
     } else {
-      env.outstream << "\"" << Printer::escapeStringLit(msg) << "\"";
+      env.outstream << "\"" << Printer::escapeJSONString(msg) << "\"";
     }
     env.outstream << "}" << std::endl;
   } else if (env.outputSectionEnabled(ASTString(section_s))) {
@@ -2589,6 +2589,8 @@ std::string b_show_json_basic(EnvI& env, Expression* e, Type t) {
     oss << "]}";
   } else if (e == env.constants.absent) {
     oss << "null";
+  } else if (auto* str = Expression::dynamicCast<StringLit>(e)) {
+    oss << "\"" << Printer::escapeJSONString(std::string(str->v().c_str(), str->v().size())) << "\"";
   } else {
     p.print(e);
   }
diff --git a/lib/exception.cpp b/lib/exception.cpp
index ed41910..023ed4e 100644
--- a/lib/exception.cpp
+++ b/lib/exception.cpp
@@ -39,8 +39,8 @@ void Exception::print(std::ostream& os) const {
 }
 
 void Exception::json(std::ostream& os) const {
-  os << "{\"type\": \"error\", \"what\": \"" << Printer::escapeStringLit(std::string(what()))
-     << "\", \"message\": \"" << Printer::escapeStringLit(msg()) << "\"}" << std::endl;
+  os << "{\"type\": \"error\", \"what\": \"" << Printer::escapeJSONString(std::string(what()))
+     << "\", \"message\": \"" << Printer::escapeJSONString(msg()) << "\"}" << std::endl;
 }
 
 void InternalError::print(std::ostream& os) const {
diff --git a/lib/prettyprinter.cpp b/lib/prettyprinter.cpp
index fcbb27e..beebc37 100644
--- a/lib/prettyprinter.cpp
+++ b/lib/prettyprinter.cpp
@@ -32,6 +32,40 @@
 
 namespace MiniZinc {
 
+std::string Printer::escapeJSONString(const std::string& s) {
+  std::ostringstream ret;
+  for (size_t i = 0; i < s.size(); i++) {
+    auto c = static_cast<unsigned char>(s[i]);
+    if (c == '"' || c == '\\' || c == '\n' || c == '\t') {
+      ret << escapeStringLit(std::string(1, s[i]));
+    } else if (c < 0x20) {
+      const char* hex = "0123456789abcdef";
+      ret << "\\u00" << hex[c >> 4] << hex[c & 15];
+    } else if (c < 0x80) {
+      ret << s[i];
+    } else {
+      size_t len = c >= 0xC2 && c <= 0xDF ? 2 : (c >> 4) == 0xE ? 3 : c >= 0xF0 && c <= 0xF4 ? 4 : 0;
+      bool valid = len > 0 && i + len <= s.size();
+      for (size_t j = 1; valid && j < len; j++) {
+        auto cj = static_cast<unsigned char>(s[i + j]);
+        valid = (cj & 0xC0) == 0x80;
+        if (j == 1) {
+          // Reject overlong forms, surrogates and code points beyond U+10FFFF
+          valid = valid && !(c == 0xE0 && cj < 0xA0) && !(c == 0xED && cj > 0x9F) &&
+                  !(c == 0xF0 && cj < 0x90) && !(c == 0xF4 && cj > 0x8F);
+        }
+      }
+      if (valid) {
+        ret << s.substr(i, len);
+        i += len - 1;
+      } else {
+        ret << "\xEF\xBF\xBD";
+      }
+    }
+  }
+  return ret.str();
+}
+
 int precedence(const Expression* e) {
   if (const auto* bo = Expression::dynamicCast<BinOp>(e)) {
     switch (bo->op()) {
diff --git a/lib/solns2out.cpp b/lib/solns2out.cpp
index 07d93dc..18d88cc 100644
--- a/lib/solns2out.cpp
+++ b/lib/solns2out.cpp
@@ -701,7 +701,7 @@ bool Solns2Out::feedRawDataChunk(const char* data) {
             if (opt.flagEncapsulateJSON) {
               message << "{\"type\": \"core\", \"core\": [";
               for (size_t i = 0; i < resolved.size(); ++i) {
-                message << (i == 0 ? "" : ", ") << "\"" << Printer::escapeStringLit(resolved[i])
+                message << (i == 0 ? "" : ", ") << "\"" << Printer::escapeJSONString(resolved[i])
                         << "\"";
               }
               message << "]}\n";
@@ -722,7 +722,7 @@ bool Solns2Out::feedRawDataChunk(const char* data) {
               parseStatistics(_stats, message);
               _stats.clear();
             } else {
-              message << "{\"type\": \"comment\", \"comment\": \"" << Printer::escapeStringLit(line)
+              message << "{\"type\": \"comment\", \"comment\": \"" << Printer::escapeJSONString(line)
                       << "\\n\"}\n";
             }
           } else {
diff --git a/lib/stackdump.cpp b/lib/stackdump.cpp
index b9e0380..5d05d97 100644
--- a/lib/stackdump.cpp
+++ b/lib/stackdump.cpp
@@ -273,7 +273,7 @@ void StackDump::json(std::ostream& os) const {
         ss << "unknown expression";
         break;
     }
-    os << Printer::escapeStringLit(ss.str()) << "\"}";
+    os << Printer::escapeJSONString(ss.str()) << "\"}";
   }
   os << "]";
 }
diff --git a/lib/statistics.cpp b/lib/statistics.cpp
index a40a91f..1a494f4 100644
--- a/lib/statistics.cpp
+++ b/lib/statistics.cpp
@@ -79,8 +79,7 @@ bool is_json_value(const Expression* e) {
     }
     return true;
   }
-  return Expression::isa<IntLit>(e) || Expression::isa<BoolLit>(e) ||
-         Expression::isa<StringLit>(e);
+  return Expression::isa<IntLit>(e) || Expression::isa<BoolLit>(e) || Expression::isa<StringLit>(e);
 }
 }  // namespace
 
@@ -89,6 +88,8 @@ void StatisticsStream::add(const std::string& stat, const Expression* value) {
     std::stringstream ss;
     ss << stat << "=" << *value;
     invalid(ss.str());
+  } else if (const auto* sl = Expression::dynamicCast<StringLit>(value)) {
+    add(stat, std::string(sl->v().c_str(), sl->v().size()));
   } else {
     addInternal(stat, *value);
   }
@@ -118,7 +119,9 @@ void StatisticsStream::add(const std::string& stat, double value) {
   }
 }
 void StatisticsStream::add(const std::string& stat, const std::string& value) {
-  addInternal(stat, "\"" + Printer::escapeStringLit(value) + "\"");
+  addInternal(
+      stat,
+      "\"" + (_json ? Printer::escapeJSONString(value) : Printer::escapeStringLit(value)) + "\"");
 }
 void StatisticsStream::addRaw(const std::string& stat, const std::string& value) {
   addInternal(stat, value);
diff --git a/lib/warning.cpp b/lib/warning.cpp
index 3087d1b..c7f7881 100644
--- a/lib/warning.cpp
+++ b/lib/warning.cpp
@@ -37,7 +37,7 @@ void Warning::json(std::ostream& os, bool werror) const {
     _stack->json(os);
     os << ", ";
   }
-  os << "\"message\": \"" << Printer::escapeStringLit(_msg) << "\"}" << std::endl;
+  os << "\"message\": \"" << Printer::escapeJSONString(_msg) << "\"}" << std::endl;
 }
 
 }  // namespace MiniZinc
-- 
2.43.0


From e65e037bc2f5bcefe4ec74cfb2183616e500dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 11/39] fix: write out all output before re-raising the
 interrupt signal

---
 minizinc.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/minizinc.cpp b/minizinc.cpp
index 9b324c4..098958c 100644
--- a/minizinc.cpp
+++ b/minizinc.cpp
@@ -39,16 +39,15 @@ int run(const std::string& exe, const std::vector<std::string>& args, bool jsonS
     MznSolver slv(std::cout, std::cerr, startTime);
     try {
       fSuccess = (slv.run(args, "", exe) != SolverInstance::ERROR);
-    } catch (const SignalRaised& e) {
+    } catch (const SignalRaised&) {
       // Interrupted, just terminate
       if (slv.getFlagVerbose()) {
         std::cerr << std::endl << "Interrupted." << std::endl;
         std::cerr << "   Done (";
         std::cerr << "overall time " << startTime.stoptime() << ")." << std::endl;
       }
-      // Re-raise signal
-      e.raise();
-      return static_cast<int>(!fSuccess);
+      // Re-raise signal once the solver and its output files have been closed
+      throw;
     } catch (const InternalError& e) {
       if (slv.getFlagVerbose()) {
         std::cerr << std::endl;
@@ -83,6 +82,10 @@ int run(const std::string& exe, const std::vector<std::string>& args, bool jsonS
       std::cerr << "overall time " << startTime.stoptime() << ")." << std::endl;
     }
     return static_cast<int>(!fSuccess);
+  } catch (const SignalRaised& e) {
+    std::cout.flush();
+    e.raise();
+    return EXIT_FAILURE;
   } catch (const Exception& e) {
     std::string what = e.what();
     std::cerr << what << (what.empty() ? "" : ": ") << e.msg() << std::endl;
-- 
2.43.0


From d12080d46465cd536aabcd2dfee387652b29922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 12/39] fix: end and collect the solver if supervising it fails

An exception while supervising a solver left it running or uncollected, with
signals blocked and our handlers installed.  For interactive solvers, a read
error counted as the end of the solver's output, an interrupted waitpid as its
failure, and the error output after the end of standard output was lost.
---
 include/minizinc/process.hh | 68 +++++++++++++++++++++++++++++++++++--
 1 file changed, 65 insertions(+), 3 deletions(-)

diff --git a/include/minizinc/process.hh b/include/minizinc/process.hh
index 0179173..286a1f1 100644
--- a/include/minizinc/process.hh
+++ b/include/minizinc/process.hh
@@ -129,6 +129,52 @@ protected:
     }
   }
   static bool hadTerm;
+  /// Ends and collects the solver and restores the signal state if supervising it ends with an
+  /// exception
+  struct Supervision {
+    int pid;
+    bool group;  // solver has its own process group
+    int out;
+    int err;
+    const sigset_t* oldMask;
+    const struct sigaction* oldInt;
+    const struct sigaction* oldTerm;
+    bool running;
+    bool active;
+    Supervision(int pid0, bool group0, int out0, int err0)
+        : pid(pid0),
+          group(group0),
+          out(out0),
+          err(err0),
+          oldMask(nullptr),
+          oldInt(nullptr),
+          oldTerm(nullptr),
+          running(true),
+          active(true) {}
+    ~Supervision() {
+      if (!active) {
+        return;
+      }
+      if (running) {
+        if (!group || killpg(pid, SIGKILL) == -1) {
+          kill(pid, SIGKILL);
+        }
+        while (waitpid(pid, nullptr, 0) == -1 && errno == EINTR) {
+        }
+      }
+      close(out);
+      close(err);
+      if (oldMask != nullptr) {
+        sigprocmask(SIG_SETMASK, oldMask, nullptr);
+      }
+      if (oldInt != nullptr) {
+        sigaction(SIGINT, oldInt, nullptr);
+      }
+      if (oldTerm != nullptr) {
+        sigaction(SIGTERM, oldTerm, nullptr);
+      }
+    }
+  };
   /// Time for measuring limits, not affected by changes of the system clock
   static void getMonotonicTime(struct timeval* tv) {
     struct timespec ts;
@@ -382,6 +428,7 @@ public:
       close(pipes[1][1]);
       close(pipes[2][1]);
       close(pipes[0][1]);
+      Supervision supervision(childPID, !_interactive, pipes[1][0], pipes[2][0]);
 
       if (_interactive) {
         // The child shares our terminal stdin and process group, so a terminal
@@ -394,13 +441,16 @@ public:
         sa_ign.sa_flags = 0;
         sigemptyset(&sa_ign.sa_mask);
         sigaction(SIGINT, &sa_ign, &old_sa_int);
+        supervision.oldInt = &old_sa_int;
 
         bool done = false;
         bool watchErr = true;  // stop watching stderr once it closes, to avoid a busy-wait
-        while (!done) {
+        while (!done || watchErr) {
           fd_set ifdset;
           FD_ZERO(&ifdset);  // NOLINT(readability-isolate-declaration)
-          FD_SET(pipes[1][0], &ifdset);
+          if (!done) {
+            FD_SET(pipes[1][0], &ifdset);
+          }
           if (watchErr) {
             FD_SET(pipes[2][0], &ifdset);
           }
@@ -417,6 +467,8 @@ public:
             ssize_t count = read(pipes[1][0], buffer, sizeof(buffer) - 1);
             if (count == -1 && (errno == EINTR || errno == EAGAIN)) {
               // interrupted, try again
+            } else if (count == -1) {
+              throw Error(std::string("Error in communication with solver: ") + strerror(errno));
             } else if (count > 0) {
               buffer[count] = 0;
               try {
@@ -449,10 +501,15 @@ public:
         close(pipes[2][0]);
         int exitStatus = 1;
         int childStatus;
-        if (waitpid(childPID, &childStatus, 0) > 0 && WIFEXITED(childStatus)) {
+        int pidStatus;
+        do {
+          pidStatus = waitpid(childPID, &childStatus, 0);
+        } while (pidStatus == -1 && errno == EINTR);
+        if (pidStatus > 0 && WIFEXITED(childStatus)) {
           exitStatus = WEXITSTATUS(childStatus);
         }
         sigaction(SIGINT, &old_sa_int, nullptr);
+        supervision.active = false;
         return exitStatus;
       }
 
@@ -476,6 +533,9 @@ public:
       sigfillset(&sa.sa_mask);
       sigaction(SIGINT, &sa, &old_sa_int);
       sigaction(SIGTERM, &sa, &old_sa_term);
+      supervision.oldMask = &old_mask;
+      supervision.oldInt = &old_sa_int;
+      supervision.oldTerm = &old_sa_term;
       int signal = _sigint ? SIGINT : SIGTERM;
       bool handledInterrupt = false;
       bool handledTerm = false;
@@ -623,6 +683,7 @@ public:
           break;
         }
       }
+      supervision.running = false;
       // Process what the solver left in the pipes, without waiting for other holders of their ends
       for (int i = 1; i <= 2; ++i) {
         fcntl(pipes[i][0], F_SETFL, fcntl(pipes[i][0], F_GETFL) | O_NONBLOCK);
@@ -653,6 +714,7 @@ public:
       sigprocmask(SIG_SETMASK, &old_mask, nullptr);  // pending signals still reach our handlers
       sigaction(SIGINT, &old_sa_int, nullptr);
       sigaction(SIGTERM, &old_sa_term, nullptr);
+      supervision.active = false;
       if (hadInterrupt) {
         throw SignalRaised(SIGINT);
       }
-- 
2.43.0


From 2ad65ccfaf1a46506dd9281e3917f3cf21334b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 13/39] fix: an overall time limit used up by compilation must
 not start an unlimited solver

The remaining time was passed on even when it was 0 (no limit) or negative.
---
 lib/solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/solver.cpp b/lib/solver.cpp
index ad27307..2ab7a48 100644
--- a/lib/solver.cpp
+++ b/lib/solver.cpp
@@ -1126,6 +1126,8 @@ SolverInstance::Status MznSolver::run(const std::vector<std::string>& args0,
       } else {
         time_left = std::min(flagSolverTimeLimit, flagOverallTimeLimit - _startTime.ms());
       }
+      // Limits of 0 or less would mean that there is none
+      time_left = std::max(std::chrono::milliseconds(1), time_left);
       std::vector<std::string> timeoutArgs(
           {"--solver-time-limit", std::to_string(time_left.count())});
       int i = 0;
-- 
2.43.0


From 7b8eee69fbdd60999d7071bf49db668e725b9815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 14/39] fix: time limits and failures of solvers that take
 MiniZinc input

The limits given by the user were not applied, and the driver exited successfully
when the solver failed.
---
 lib/solver.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/solver.cpp b/lib/solver.cpp
index 2ab7a48..808f290 100644
--- a/lib/solver.cpp
+++ b/lib/solver.cpp
@@ -1088,6 +1088,19 @@ SolverInstance::Status MznSolver::run(const std::vector<std::string>& args0,
   }
 
   if (!ifMzn2Fzn() && _sf->getId() == "org.minizinc.mzn-mzn") {
+    // Nothing is compiled here, so the smaller one of the time limits applies
+    std::chrono::milliseconds time_limit = flagSolverTimeLimit;
+    if (time_limit == std::chrono::milliseconds(0) ||
+        (flagOverallTimeLimit != std::chrono::milliseconds(0) &&
+         flagOverallTimeLimit < time_limit)) {
+      time_limit = flagOverallTimeLimit;
+    }
+    if (time_limit != std::chrono::milliseconds(0)) {
+      std::vector<std::string> timeoutArgs(
+          {"--solver-time-limit", std::to_string(time_limit.count())});
+      int i = 0;
+      _sf->processOption(_siOpt, i, timeoutArgs);
+    }
     if (_supportsJSONStream && flagEncapsulateJSON) {
       std::vector<std::string> json_stream_flag(1);
       json_stream_flag[0] = "--json-stream";
@@ -1102,8 +1115,7 @@ SolverInstance::Status MznSolver::run(const std::vector<std::string>& args0,
       _si->options()->verbose = getFlagVerbose();
       _si->options()->printStatistics = getFlagStatistics();
     }
-    _si->solve();
-    return SolverInstance::NONE;
+    return _si->solve() == SolverInstance::ERROR ? SolverInstance::ERROR : SolverInstance::NONE;
   }
 
   try {
-- 
2.43.0


From c8b694197a3a3653bc38dfbce517d38fd581285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:02 +0000
Subject: [PATCH 15/39] fix: do not append an empty line to the output of a
 solver

The final line end is only fed if the last chunk did not end with one. It
showed up as an extra empty line for solvers whose output is passed on
unchanged, which is not even valid in a JSON stream.
---
 include/minizinc/process.hh | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/minizinc/process.hh b/include/minizinc/process.hh
index 286a1f1..66995de 100644
--- a/include/minizinc/process.hh
+++ b/include/minizinc/process.hh
@@ -444,6 +444,7 @@ public:
         supervision.oldInt = &old_sa_int;
 
         bool done = false;
+        bool inLine = false;
         bool watchErr = true;  // stop watching stderr once it closes, to avoid a busy-wait
         while (!done || watchErr) {
           fd_set ifdset;
@@ -471,6 +472,7 @@ public:
               throw Error(std::string("Error in communication with solver: ") + strerror(errno));
             } else if (count > 0) {
               buffer[count] = 0;
+              inLine = buffer[count - 1] != '\n';
               try {
                 _pS2Out->feedRawDataChunk(buffer);
               } catch (...) {
@@ -479,7 +481,9 @@ public:
                 throw;
               }
             } else {
-              _pS2Out->feedRawDataChunk("\n");  // flush any unterminated last line
+              if (inLine) {
+                _pS2Out->feedRawDataChunk("\n");  // flush any unterminated last line
+              }
               done = true;
             }
           }
@@ -543,6 +547,7 @@ public:
       bool done = false;
       bool timed_out = false;
       bool isOpen[3] = {false, true, true};  // streams whose end has not been reached
+      bool inLine = false;                   // last chunk did not end with \n
       int childStatus;
       int pidStatus = 0;
       long pollNs = 1000000;
@@ -655,6 +660,7 @@ public:
             } else if (count > 0) {
               buffer[count] = 0;
               if (1 == i) {
+                inLine = buffer[count - 1] != '\n';
                 //                       cerr << "mzn-fzn: raw chunk stdout:::  " << flush;
                 //                       cerr << buffer << flush;
                 try {
@@ -693,6 +699,7 @@ public:
           if (count > 0) {
             buffer[count] = 0;
             if (1 == i) {
+              inLine = buffer[count - 1] != '\n';
               _pS2Out->feedRawDataChunk(buffer);
             } else {
               _pS2Out->getLog() << buffer << std::flush;
@@ -702,7 +709,9 @@ public:
           }
         }
       }
-      _pS2Out->feedRawDataChunk("\n");  // in case last chunk did not end with \n
+      if (inLine) {
+        _pS2Out->feedRawDataChunk("\n");  // in case last chunk did not end with \n
+      }
       close(pipes[1][0]);
       close(pipes[2][0]);
       int exitStatus = timed_out ? 0 : 1;
-- 
2.43.0


From 1195b7d1454e676bd384f9d407fb781f755a8b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 16/39] fix: report failing calls while starting and waiting
 for a solver

A read error while emptying the pipes was taken for their end, an error of
dup2 was reported on a closed stream, and a failing waitpid gave a failure
exit code without any message.
---
 include/minizinc/process.hh | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/minizinc/process.hh b/include/minizinc/process.hh
index 66995de..d38d291 100644
--- a/include/minizinc/process.hh
+++ b/include/minizinc/process.hh
@@ -492,6 +492,8 @@ public:
             ssize_t count = read(pipes[2][0], buffer, sizeof(buffer) - 1);
             if (count == -1 && (errno == EINTR || errno == EAGAIN)) {
               // interrupted, try again
+            } else if (count == -1) {
+              throw Error(std::string("Error in communication with solver: ") + strerror(errno));
             } else if (count > 0) {
               buffer[count] = 0;
               _pS2Out->getLog() << buffer << std::flush;
@@ -514,6 +516,9 @@ public:
         }
         sigaction(SIGINT, &old_sa_int, nullptr);
         supervision.active = false;
+        if (pidStatus == -1) {
+          throw Error("Failed to determine how the solver terminated");
+        }
         return exitStatus;
       }
 
@@ -704,8 +709,10 @@ public:
             } else {
               _pS2Out->getLog() << buffer << std::flush;
             }
-          } else if (count == 0 || errno != EINTR) {
+          } else if (count == 0 || errno == EAGAIN || errno == EWOULDBLOCK) {
             isOpen[i] = false;
+          } else if (errno != EINTR) {
+            throw Error(std::string("Error in communication with solver: ") + strerror(errno));
           }
         }
       }
@@ -730,6 +737,9 @@ public:
       if (hadTerm) {
         throw SignalRaised(SIGTERM);
       }
+      if (pidStatus <= 0) {
+        throw Error("Failed to determine how the solver terminated");
+      }
       return exitStatus;
     }
     // From here on this is the child. It must not unwind the copied state of the driver (which would
@@ -756,8 +766,7 @@ public:
         fail("Error: Failed to set pgid of subprocess\n");
       }
     }
-    close(STDOUT_FILENO);
-    close(STDERR_FILENO);
+    // The standard streams are closed by dup2, so that errors can be reported until then
     if (!_interactive) {
       // Batch mode: the child's stdin is the (already write-closed) pipe, so it
       // sees EOF. Interactive mode leaves STDIN_FILENO inherited from the parent
-- 
2.43.0


From eb22f27c6db229493c063cde3a66a71a1054e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 17/39] fix: interactive solvers: find the marker of a solution
 block in any chunking

A prompt that arrived in the same chunk as the marker following it hid the
marker, and so did a marker that was split after a prompt.
---
 lib/solns2out.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/solns2out.cpp b/lib/solns2out.cpp
index 18d88cc..5b784d6 100644
--- a/lib/solns2out.cpp
+++ b/lib/solns2out.cpp
@@ -785,6 +785,14 @@ bool Solns2OutInteractive::processCompleteLine(const std::string& line) {
     marker.pop_back();  // tolerate CRLF when matching markers
   }
   if (!_inSolution) {
+    // A prompt that arrived together with the marker has not been echoed yet
+    if (marker.size() >= _beginMarker.size()) {
+      size_t prompt = marker.size() - _beginMarker.size();
+      if (marker.compare(prompt, std::string::npos, _beginMarker) == 0 && prompt > 0) {
+        _inner.getOutput() << marker.substr(0, prompt) << std::flush;
+        marker.erase(0, prompt);
+      }
+    }
     if (marker == _beginMarker) {
       _inSolution = true;  // consume the marker (any prompt prefix stays shown)
       return true;
@@ -819,11 +827,18 @@ bool Solns2OutInteractive::feedRawDataChunk(const char* data) {
       _linePart = line;
       if (!_inSolution) {
         std::string remainder = _linePart.substr(_echoed);
-        if (!remainder.empty() && !is_marker_prefix(remainder, _beginMarker)) {
+        // Hold back the end of the remainder that may be the start of the marker
+        size_t held = 0;
+        while (held < remainder.size() &&
+               !is_marker_prefix(remainder.substr(held), _beginMarker + '\r')) {
+          ++held;
+        }
+        remainder.resize(held);
+        if (!remainder.empty()) {
           // The remainder cannot (yet) be the begin marker: flush it now so a
           // prompt without a trailing newline appears immediately.
           _inner.getOutput() << remainder << std::flush;
-          _echoed = _linePart.size();
+          _echoed += remainder.size();
         }
       }
       break;
-- 
2.43.0


From 6d8ee567dcd712d963bb1c9944b714e3eabccbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 18/39] fix: pass -a, -i and the random seed on to solvers that
 take MiniZinc input

---
 lib/solver.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/solver.cpp b/lib/solver.cpp
index 808f290..10c5fcc 100644
--- a/lib/solver.cpp
+++ b/lib/solver.cpp
@@ -1101,6 +1101,18 @@ SolverInstance::Status MznSolver::run(const std::vector<std::string>& args0,
       int i = 0;
       _sf->processOption(_siOpt, i, timeoutArgs);
     }
+    // The solver finds out itself whether this is a satisfaction or an optimisation problem
+    if (_flagAllSatisfaction || _flagIntermediate) {
+      std::vector<std::string> a_flag(1);
+      a_flag[0] = _supportsI && (!_flagAllSatisfaction || !_supportsA) ? "-i" : "-a";
+      int i = 0;
+      _sf->processOption(_siOpt, i, a_flag);
+    }
+    if (flagRandomSeed) {
+      std::vector<std::string> randomArgs({"-r", std::to_string(randomSeed)});
+      int i = 0;
+      _sf->processOption(_siOpt, i, randomArgs);
+    }
     if (_supportsJSONStream && flagEncapsulateJSON) {
       std::vector<std::string> json_stream_flag(1);
       json_stream_flag[0] = "--json-stream";
-- 
2.43.0


From caab02c71ba5930e1042a13f39d11a176588e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:23 +0000
Subject: [PATCH 19/39] fix: reject incomplete or inconsistent NL solution
 files

The status line, the values and the counts of a solution file were used
although the file ended before them, variables were read beyond the values
present, integers were truncated instead of rounded, a solution left by an
earlier run was taken for the result (--keepfile), files without options
could not be read, and the model file was not checked for write errors.
---
 solvers/nl/nl_solreader.cpp      | 39 ++++++++++++++++++++++++--------
 solvers/nl/nl_solverinstance.cpp |  8 +++++++
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/solvers/nl/nl_solreader.cpp b/solvers/nl/nl_solreader.cpp
index 74b1c18..7bce23b 100644
--- a/solvers/nl/nl_solreader.cpp
+++ b/solvers/nl/nl_solreader.cpp
@@ -6,6 +6,9 @@
 
 #include <minizinc/solvers/nl/nl_solreader.hh>
 
+#include <algorithm>
+#include <cmath>
+
 using namespace std;
 
 namespace MiniZinc {
@@ -34,11 +37,11 @@ NLSol NLSol::parseSolution(istream& in) {
       if (buffer == "Options") {
         if (getline(in, buffer)) {
           int nb_options = stoi(buffer);
-          while (nb_options > 0) {
-            getline(in, buffer);
+          while (nb_options > 0 && getline(in, buffer)) {
             nb_options--;
           }
         }
+        getline(in, buffer);
       }
     }
 
@@ -46,9 +49,9 @@ NLSol NLSol::parseSolution(istream& in) {
       return NLSol("Error reading the solver Options", NL_Solver_Status::PARSE_ERROR, {});
     }
 
-    // Check the dual: we ignore the first, read the second. If non zero, some lines are to be
-    // skipped
-    bool success = (getline(in, buffer) && getline(in, buffer));
+    // Check the dual: we ignore the first (already in the buffer), read the second. If non zero, some
+    // lines are to be skipped
+    bool success = in.good() && getline(in, buffer);
     if (!success || in.bad()) {
       return NLSol("Error reading the number of dual", NL_Solver_Status::PARSE_ERROR, {});
     }
@@ -66,7 +69,7 @@ NLSol NLSol::parseSolution(istream& in) {
       nb_duals--;
     }
 
-    if (in.bad()) {
+    if (nb_duals > 0 || in.bad()) {
       return NLSol("Error reading the dual values", NL_Solver_Status::PARSE_ERROR, {});
     }
 
@@ -77,7 +80,7 @@ NLSol NLSol::parseSolution(istream& in) {
       nb_vars--;
     }
 
-    if (in.bad()) {
+    if (nb_vars > 0 || in.bad()) {
       return NLSol("Error reading the primal values", NL_Solver_Status::PARSE_ERROR, {});
     }
 
@@ -85,7 +88,10 @@ NLSol NLSol::parseSolution(istream& in) {
     // objno 0 EXIT
     // ........
     // 8 char
-    getline(in, buffer);
+    // The end of the line must be there as well: the code could be cut off otherwise
+    if (!getline(in, buffer) || in.eof() || buffer.compare(0, 6, "objno ") != 0) {
+      return NLSol("Error reading the status code", NL_Solver_Status::PARSE_ERROR, {});
+    }
     string sub = buffer.substr(8, buffer.length() - 8);
     int resultCode = stoi(sub);
     st = NL_Solver_Status::UNKNOWN;
@@ -151,6 +157,13 @@ bool NLSolns2Out::feedRawDataChunk(const char* data) {
 void NLSolns2Out::parseSolution(const string& filename) {
   ifstream f(FILE_PATH(filename));
   NLSol sol = NLSol::parseSolution(f);
+  if (sol.status == NL_Solver_Status::SOLVED &&
+      (sol.values.size() != _nlFile.variables.size() ||
+       !std::all_of(sol.values.begin(), sol.values.end(),
+                    [](double v) { return std::isfinite(v); }))) {
+    // Not a solution of this problem
+    sol.status = NL_Solver_Status::PARSE_ERROR;
+  }
 
   switch (sol.status) {
     case NL_Solver_Status::PARSE_ERROR: {
@@ -180,7 +193,7 @@ void NLSolns2Out::parseSolution(const string& filename) {
         if (v.toReport) {
           sb << v.name << " = ";
           if (v.isInteger) {
-            auto value = static_cast<long long int>(sol.values[i]);
+            auto value = std::llround(sol.values[i]);
             sb << value;
           } else {
             double value = sol.values[i];
@@ -210,7 +223,7 @@ void NLSolns2Out::parseSolution(const string& filename) {
           } else {
             int index = _nlFile.variableIndexes.at(item.variable);
             if (a.isInteger) {
-              auto value = static_cast<long long int>(sol.values[index]);
+              auto value = std::llround(sol.values[index]);
               sb << value;
             } else {
               double value = sol.values[index];
@@ -261,6 +274,12 @@ void NLSolns2Out::parseSolution(const string& filename) {
       break;
     }
 
+    case NL_Solver_Status::FAILURE: {
+      DEBUG_MSG("NL_Solver_Status: FAILURE" << endl);
+      _out->feedRawDataChunk(_out->opt.errorMsgDef);
+      break;
+    }
+
     case NL_Solver_Status::INTERRUPTED: {
       DEBUG_MSG("NL_Solver_Status: INTERRUPTED" << endl);
       _out->feedRawDataChunk(_out->opt.unknownMsgDef);
diff --git a/solvers/nl/nl_solverinstance.cpp b/solvers/nl/nl_solverinstance.cpp
index 33a27cb..52a5e20 100644
--- a/solvers/nl/nl_solverinstance.cpp
+++ b/solvers/nl/nl_solverinstance.cpp
@@ -194,6 +194,14 @@ SolverInstance::Status NLSolverInstance::solve() {
     _nlFile.phase2();
     // Print to the files
     _nlFile.printToStream(outfile);
+    outfile.close();
+    if (!outfile) {
+      throw Error("Cannot write NL file `" + file_nl + "': I/O error");
+    }
+    if (opt.doKeepfile) {
+      // A solution left behind by an earlier run is none of this problem
+      std::ofstream(FILE_PATH(file_sol), std::ios::trunc);
+    }
 
     // --- --- --- Call the solver
     NLSolns2Out s2o = NLSolns2Out(out, _nlFile, opt.verbose);
-- 
2.43.0


From 88637e7d880791df821471cd0fb6c3aeb9c5ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 20/39] fix: apply time limits to NL solvers

---
 .../minizinc/solvers/nl/nl_solverinstance.hh  |  2 ++
 solvers/nl/nl_solverinstance.cpp              | 19 +++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/minizinc/solvers/nl/nl_solverinstance.hh b/include/minizinc/solvers/nl/nl_solverinstance.hh
index 2e8f55d..91c579d 100644
--- a/include/minizinc/solvers/nl/nl_solverinstance.hh
+++ b/include/minizinc/solvers/nl/nl_solverinstance.hh
@@ -20,6 +20,8 @@ public:
   std::vector<MZNFZNSolverFlag> nlSolverFlags;
   bool doHexafloat = false;
   bool doKeepfile = false;
+  int solverTimeLimitMilliseconds = 0;
+  int cleanupTimeLimitMilliseconds = 1000;
 };
 
 class NLSolverInstance : public SolverInstanceBase {
diff --git a/solvers/nl/nl_solverinstance.cpp b/solvers/nl/nl_solverinstance.cpp
index 52a5e20..cf2e13e 100644
--- a/solvers/nl/nl_solverinstance.cpp
+++ b/solvers/nl/nl_solverinstance.cpp
@@ -58,11 +58,13 @@ void NLSolverFactory::printHelp(ostream& os) {
         "     As above, but for a single option string that needs to be quoted in a shell.\n"
      << "  --hexafloat\n     Use hexadecimal format when communicating floating points with the "
         "solver.\n"
+     << "  -t <ms>, --solver-time-limit <ms>, --fzn-time-limit <ms>\n     Set time limit (in "
+        "milliseconds) for solving.\n"
+     << "  --cleanup-time-limit <ms>\n     Set grace period for solver cleanup before forced "
+        "termination (default 1000)\n"
      << "  --keepfile\n     Write the nl and sol files next to the input file and don't remove "
         "them.\n"
       // << "  --nl-sigint\n     Send SIGINT instead of SIGTERM.\n"
-      // << "  -t <ms>, --solver-time-limit <ms>, --fzn-time-limit <ms>\n     Set time limit (in
-      // milliseconds) for solving.\n"
       // << "  -p <n>, --parallel <n>\n     Use <n> threads during search. The default is
       // solver-dependent.\n"
       // << "  -r <n>, --seed <n>, --random-seed <n>\n     For compatibility only: use solver flags
@@ -97,6 +99,10 @@ bool NLSolverFactory::processOption(SolverInstanceBase::Options* opt, int& i,
     _opt.nlFlags.push_back(buffer);
   } else if (cop.getOption("--keepfile")) {
     _opt.doKeepfile = true;
+  } else if (cop.getOption("-t --solver-time-limit", &nn)) {
+    _opt.solverTimeLimitMilliseconds = nn;
+  } else if (cop.getOption("--cleanup-time-limit", &nn)) {
+    _opt.cleanupTimeLimitMilliseconds = nn;
   } else if (cop.getOption("-s --solver-statistics")) {
     // ignore statistics flags for now
   } else if (cop.getOption("-v --verbose-solving")) {
@@ -220,10 +226,15 @@ SolverInstance::Status NLSolverInstance::solve() {
       cmd_line.push_back(arg);
     }
 
-    Process<NLSolns2Out> proc(cmd_line, &s2o, 0, true);
+    Process<NLSolns2Out> proc(cmd_line, &s2o, opt.solverTimeLimitMilliseconds, true,
+                              opt.cleanupTimeLimitMilliseconds);
     exitStatus = proc.run();
 
-    if (exitStatus == 0) {
+    if (exitStatus == 0 && opt.solverTimeLimitMilliseconds != 0 &&
+        std::ifstream(FILE_PATH(file_sol)).peek() == EOF) {
+      // Stopped before it could write a result
+      out->feedRawDataChunk((std::string(out->opt.unknownMsgDef) + "\n").c_str());
+    } else if (exitStatus == 0) {
       // Parse the result
       s2o.parseSolution(file_sol);
     }
-- 
2.43.0


From d9291b96d207012db2e1f63e764245cb48cfaea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:05 +0000
Subject: [PATCH 21/39] fix: reject NL solution values that are no numbers of
 their type

---
 solvers/nl/nl_solreader.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/solvers/nl/nl_solreader.cpp b/solvers/nl/nl_solreader.cpp
index 7bce23b..7ba9392 100644
--- a/solvers/nl/nl_solreader.cpp
+++ b/solvers/nl/nl_solreader.cpp
@@ -6,7 +6,6 @@
 
 #include <minizinc/solvers/nl/nl_solreader.hh>
 
-#include <algorithm>
 #include <cmath>
 
 using namespace std;
@@ -75,7 +74,11 @@ NLSol NLSol::parseSolution(istream& in) {
 
     // Read the vars
     while (nb_vars > 0 && getline(in, buffer)) {
-      double d = stod(buffer);
+      size_t end = 0;
+      double d = stod(buffer, &end);
+      if (buffer.find_first_not_of(" \t\r", end) != string::npos) {
+        return NLSol("Error reading the primal values", NL_Solver_Status::PARSE_ERROR, {});
+      }
       vec.push_back(d);
       nb_vars--;
     }
@@ -157,12 +160,16 @@ bool NLSolns2Out::feedRawDataChunk(const char* data) {
 void NLSolns2Out::parseSolution(const string& filename) {
   ifstream f(FILE_PATH(filename));
   NLSol sol = NLSol::parseSolution(f);
-  if (sol.status == NL_Solver_Status::SOLVED &&
-      (sol.values.size() != _nlFile.variables.size() ||
-       !std::all_of(sol.values.begin(), sol.values.end(),
-                    [](double v) { return std::isfinite(v); }))) {
-    // Not a solution of this problem
-    sol.status = NL_Solver_Status::PARSE_ERROR;
+  if (sol.status == NL_Solver_Status::SOLVED) {
+    bool ok = sol.values.size() == _nlFile.variables.size();
+    for (size_t i = 0; ok && i < sol.values.size(); ++i) {
+      ok = std::isfinite(sol.values[i]) &&
+           (!_nlFile.variables[_nlFile.vnames[i]].isInteger || std::fabs(sol.values[i]) < 9.2e18);
+    }
+    if (!ok) {
+      // Not a solution of this problem
+      sol.status = NL_Solver_Status::PARSE_ERROR;
+    }
   }
 
   switch (sol.status) {
-- 
2.43.0


From c91122ff7e31606b108248c2f55576844006423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 22/39] fix: time spent on solver output counts towards the
 solver's time limit

---
 include/minizinc/process.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/minizinc/process.hh b/include/minizinc/process.hh
index d38d291..c7b3ce9 100644
--- a/include/minizinc/process.hh
+++ b/include/minizinc/process.hh
@@ -572,6 +572,17 @@ public:
           }
         }
         struct timespec wait;
+        if (_timelimit != 0) {
+          // Time spent on processing output since the timeout was last computed counts as well
+          timeval currentTime;
+          getMonotonicTime(&currentTime);
+          long long left = (static_cast<long long>(timeout_orig.tv_sec) + starttime.tv_sec -
+                            currentTime.tv_sec) *
+                               1000000 +
+                           timeout_orig.tv_usec + starttime.tv_usec - currentTime.tv_usec;
+          timeout.tv_sec = left > 0 ? left / 1000000 : 0;
+          timeout.tv_usec = left > 0 ? left % 1000000 : 0;
+        }
         wait.tv_sec = timeout.tv_sec;
         wait.tv_nsec = timeout.tv_usec * 1000L;
         bool polling =
-- 
2.43.0


From d3738bae23c3dc052f0395a9f5c2de574f09f5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:14 +0000
Subject: [PATCH 23/39] fix: report compiled files that could not be written
 completely

---
 lib/flattener.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/flattener.cpp b/lib/flattener.cpp
index ec8e13f..e95e7bb 100644
--- a/lib/flattener.cpp
+++ b/lib/flattener.cpp
@@ -777,8 +777,10 @@ void Flattener::flatten(const std::string& modelString, const std::string& model
             _log << "Write solution checker to " << mzc_filename << "\n";
           }
           std::ofstream mzc_f(FILE_PATH(mzc_filename));
+          check_io_status(mzc_f.good(), " I/O error: cannot open solution checker output file. ");
           mzc_f << mzc;
           mzc_f.close();
+          check_io_status(mzc_f.good(), " I/O error: cannot write solution checker output file. ");
         }
         status = SolverInstance::NONE;
         // Not flattening so have to print warnings ourselves
@@ -998,8 +1000,8 @@ void Flattener::flatten(const std::string& modelString, const std::string& model
           check_io_status(ofs.good(), " I/O error: cannot open fzn output file. ");
           PathFilePrinter pfp(ofs, env->envi());
           pfp.print(env->flat());
-          check_io_status(ofs.good(), " I/O error: cannot write fzn output file. ");
           ofs.close();
+          check_io_status(ofs.good(), " I/O error: cannot write fzn output file. ");
           if (_flags.verbose) {
             _log << " done (" << _starttime.stoptime() << ")" << std::endl;
           }
@@ -1067,8 +1069,8 @@ void Flattener::flatten(const std::string& modelString, const std::string& model
               p.print(env->flat());
             } break;
           }
-          check_io_status(ofs.good(), " I/O error: cannot write fzn output file. ");
           ofs.close();
+          check_io_status(ofs.good(), " I/O error: cannot write fzn output file. ");
           if (_flags.verbose) {
             _log << " done (" << _starttime.stoptime() << ")" << std::endl;
           }
@@ -1103,8 +1105,8 @@ void Flattener::flatten(const std::string& modelString, const std::string& model
             }
             type_demonomorphise_library(*env, ozn.get());
             p.print(ozn.get());
-            check_io_status(ofs.good(), " I/O error: cannot write ozn output file. ");
             ofs.close();
+            check_io_status(ofs.good(), " I/O error: cannot write ozn output file. ");
             if (_flags.verbose) {
               _log << " done (" << _starttime.stoptime() << ")" << std::endl;
             }
-- 
2.43.0


From 8cd305426dfb731b4cd3d8190547e32ed715c6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:14 +0000
Subject: [PATCH 24/39] fix: do not start the solver with an incompletely
 written model

---
 solvers/fzn/fzn_solverinstance.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/solvers/fzn/fzn_solverinstance.cpp b/solvers/fzn/fzn_solverinstance.cpp
index cc12d6d..f4e7888 100644
--- a/solvers/fzn/fzn_solverinstance.cpp
+++ b/solvers/fzn/fzn_solverinstance.cpp
@@ -231,6 +231,14 @@ FZNSolverInstance::FZNSolverInstance(Env& env, std::ostream& log,
 
 FZNSolverInstance::~FZNSolverInstance() {}
 
+/// Close a file handed to the solver, which must not be given an incomplete problem
+static void check_written(std::ofstream& os, const std::string& name) {
+  os.close();
+  if (!os.good()) {
+    throw Error("I/O error: cannot write temporary file `" + name + "'");
+  }
+}
+
 SolverInstance::Status FZNSolverInstance::solve() {
   auto& opt = static_cast<FZNSolverOptions&>(*_options);
   if (opt.fznSolver.empty()) {
@@ -329,6 +337,7 @@ SolverInstance::Status FZNSolverInstance::solve() {
         }
       }
       p.print(_fzn->solveItem());
+      check_written(os, fznFile->name());
     }
   } else {
     assert(opt.fznFormat == FZNSolverOptions::FF_JSON);
@@ -336,6 +345,7 @@ SolverInstance::Status FZNSolverInstance::solve() {
     std::ofstream os(FILE_PATH(fznFile->name()));
     FznJSONPrinter p(os, _env.envi());
     p.print(_fzn);
+    check_written(os, fznFile->name());
   }
   cmd_line.push_back(fznFile->name());
 
@@ -345,6 +355,7 @@ SolverInstance::Status FZNSolverInstance::solve() {
     std::ofstream ofs(FILE_PATH(pathsFile->name()));
     PathFilePrinter pfp(ofs, _env.envi());
     pfp.print(_fzn);
+    check_written(ofs, pathsFile->name());
 
     cmd_line.emplace_back("--paths");
     cmd_line.push_back(pathsFile->name());
-- 
2.43.0


From 33a48c22af34590d4df9fe3a19fae2bee7c7a99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:14 +0000
Subject: [PATCH 25/39] fix: report output files that could not be written
 completely

---
 include/minizinc/solns2out.hh |  2 ++
 lib/solns2out.cpp             | 20 ++++++++++++++++++--
 minizinc.cpp                  |  4 +++-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/minizinc/solns2out.hh b/include/minizinc/solns2out.hh
index 27b64cc..c52e34f 100644
--- a/include/minizinc/solns2out.hh
+++ b/include/minizinc/solns2out.hh
@@ -150,6 +150,8 @@ public:
   /// Get the primary output stream
   /// First call restores stdout
   std::ostream& getOutput();
+  /// Write out and close all output files, reporting files that could not be written
+  void closeOutputFiles();
   /// Get the secondary output stream
   std::ostream& getLog();
 
diff --git a/lib/solns2out.cpp b/lib/solns2out.cpp
index 5b784d6..ca7988d 100644
--- a/lib/solns2out.cpp
+++ b/lib/solns2out.cpp
@@ -644,8 +644,24 @@ Solns2Out::~Solns2Out() {
   }
 }
 
-ostream& Solns2Out::getOutput() {
-  return (((_outStream != nullptr) && _outStream->good()) ? *_outStream : _os);
+ostream& Solns2Out::getOutput() { return _outStream != nullptr ? *_outStream : _os; }
+
+void Solns2Out::closeOutputFiles() {
+  getOutput() << comments;
+  comments = "";
+  auto close_file = [](ostream* os) {
+    auto* file = dynamic_cast<ofstream*>(os);
+    if (file == nullptr) {
+      return true;
+    }
+    file->close();
+    return file->good();
+  };
+  check_io_status(close_file(_outStreamNonCanon.get()), opt.flagOutputNoncanonical, false);
+  check_io_status(close_file(_outStreamRaw.get()), opt.flagOutputRaw, false);
+  if (!close_file(_outStream.get())) {
+    throw Error("I/O error: cannot write output file `" + opt.flagOutputFile + "'");
+  }
 }
 
 ostream& Solns2Out::getLog() { return _log; }
diff --git a/minizinc.cpp b/minizinc.cpp
index 098958c..492fea3 100644
--- a/minizinc.cpp
+++ b/minizinc.cpp
@@ -38,7 +38,9 @@ int run(const std::string& exe, const std::vector<std::string>& args, bool jsonS
     bool fSuccess = false;
     MznSolver slv(std::cout, std::cerr, startTime);
     try {
-      fSuccess = (slv.run(args, "", exe) != SolverInstance::ERROR);
+      const bool ok = slv.run(args, "", exe) != SolverInstance::ERROR;
+      slv.s2out.closeOutputFiles();
+      fSuccess = ok;
     } catch (const SignalRaised&) {
       // Interrupted, just terminate
       if (slv.getFlagVerbose()) {
-- 
2.43.0


From 0c516a5c63a318d2395f304fcde5fe5192fc31a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:26 +0000
Subject: [PATCH 26/39] fix: error of a solution checker is one of the
 checker's messages

---
 lib/solns2out.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/solns2out.cpp b/lib/solns2out.cpp
index ca7988d..2d5ec72 100644
--- a/lib/solns2out.cpp
+++ b/lib/solns2out.cpp
@@ -420,7 +420,7 @@ void Solns2Out::checkSolution(std::ostream& oss) const {
     slv.run(opt.checkerArgs, checker.str(), "minizinc", "checker.mzc");
   } catch (const Exception& e) {
     if (opt.flagEncapsulateJSON) {
-      e.json(std::cout);
+      e.json(oss);
     } else {
       e.print(oss);
     }
-- 
2.43.0


From 642ad7b04a97f235b205055bac7569e86075fac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:21 +0000
Subject: [PATCH 27/39] fix: report model and data files that could not be read
 completely

---
 lib/parser.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/parser.cpp b/lib/parser.cpp
index dbf8b44..0eb44ab 100644
--- a/lib/parser.cpp
+++ b/lib/parser.cpp
@@ -35,14 +35,21 @@ int mzn_yylex_destroy(void* scanner);
 namespace {
 // fastest way to read a file into a string (especially big files)
 // see: http://insanecoding.blogspot.be/2011/11/how-to-read-in-file-in-c.html
-std::string get_file_contents(std::ifstream& in) {
+std::string get_file_contents(std::ifstream& in, const std::string& filename) {
   if (in) {
     std::string contents;
     in.seekg(0, std::ios::end);
-    contents.resize(static_cast<unsigned int>(in.tellg()));
+    const std::streamoff size = in.tellg();
     in.seekg(0, std::ios::beg);
+    if (!in || size < 0) {
+      throw MiniZinc::Error("Cannot read file '" + filename + "'.");
+    }
+    contents.resize(static_cast<size_t>(size));
     // Warning assume editability of the string underlying storage
-    in.read(const_cast<char*>(contents.data()), static_cast<long>(contents.size()));
+    in.read(const_cast<char*>(contents.data()), static_cast<std::streamsize>(size));
+    if (!in || in.gcount() != size) {
+      throw MiniZinc::Error("Cannot read file '" + filename + "'.");
+    }
     in.close();
     if (!contents.empty() && contents[0] == '@') {
       contents = MiniZinc::FileUtils::decode_base64(contents);
@@ -260,7 +267,7 @@ void parse(Env& env, Model*& model, const vector<string>& filenames,
       if (verbose) {
         std::cerr << "processing file '" << fullname << "'" << endl;
       }
-      s = get_file_contents(file);
+      s = get_file_contents(file, fullname);
 
       if (m->filepath().empty()) {
         m->setFilepath(fullname);
@@ -304,7 +311,7 @@ void parse(Env& env, Model*& model, const vector<string>& filenames,
         if (verbose) {
           std::cerr << "processing data file '" << f << "'" << endl;
         }
-        s = get_file_contents(file);
+        s = get_file_contents(file, f);
       }
 
       ParserState pp(f, s, err, includePaths, files, seenModels, model, true, false, false,
-- 
2.43.0


From b4470aad58c277633dfa1910de47a7dc1ae2e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 28/39] fix: report failing reads of standard input

---
 lib/flattener.cpp | 4 ++++
 lib/solver.cpp    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/lib/flattener.cpp b/lib/flattener.cpp
index e95e7bb..83d0377 100644
--- a/lib/flattener.cpp
+++ b/lib/flattener.cpp
@@ -22,6 +22,7 @@
 #include <minizinc/statistics.hh>
 
 #include <algorithm>
+#include <cstdio>
 #include <fstream>
 
 #ifdef HAS_GECODE
@@ -715,6 +716,9 @@ void Flattener::flatten(const std::string& modelString, const std::string& model
     if (_flags.stdinInput) {
       std::string input =
           std::string(istreambuf_iterator<char>(std::cin), istreambuf_iterator<char>());
+      if (std::ferror(stdin) != 0) {
+        throw Error("Cannot read model from standard input.");
+      }
       modelText += input;
     }
 
diff --git a/lib/solver.cpp b/lib/solver.cpp
index 10c5fcc..ab52f7f 100644
--- a/lib/solver.cpp
+++ b/lib/solver.cpp
@@ -27,6 +27,7 @@
 #include <minizinc/solver.hh>
 
 #include <chrono>
+#include <cstdio>
 #include <ctime>
 #include <fstream>
 #include <future>
@@ -1080,6 +1081,9 @@ SolverInstance::Status MznSolver::run(const std::vector<std::string>& args0,
       line += '\n';  // need eols as in t=raw stream
       s2out.feedRawDataChunk(line.c_str());
     }
+    if (std::ferror(stdin) != 0) {
+      throw Error("Cannot read solutions from standard input.");
+    }
     if (s2out.opt.flagCanonicalize && !s2out.fStatusPrinted) {
       // The stream ended without a status: print the solutions collected so far
       s2out.evalStatus(SolverInstance::NONE);
-- 
2.43.0


From 82fe41631b3ac165e0e49e830494bd78d986772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:45 +0000
Subject: [PATCH 29/39] fix: overall time limit stops compilation in every pass
 and before it has started

---
 include/minizinc/flatten_internal.hh | 10 +++++++---
 include/minizinc/flattener.hh        |  9 ++++-----
 lib/flattener.cpp                    |  1 +
 lib/passes/compile_pass.cpp          |  1 +
 4 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/minizinc/flatten_internal.hh b/include/minizinc/flatten_internal.hh
index 45cbdc8..2ae6d76 100644
--- a/include/minizinc/flatten_internal.hh
+++ b/include/minizinc/flatten_internal.hh
@@ -23,6 +23,7 @@
 #include <atomic>
 #include <cassert>
 #include <cmath>
+#include <memory>
 #include <random>
 #include <utility>
 
@@ -418,7 +419,8 @@ protected:
   std::vector<RecordType*> _recordTypes;
   bool _collectVardecls;
   std::default_random_engine _g;
-  std::atomic<bool> _cancel = {false};
+  /// Whether compilation was cancelled (shared by the environments of all passes)
+  std::shared_ptr<std::atomic<bool>> _cancel = std::make_shared<std::atomic<bool>>(false);
 
   /// Register tuple type directly from a list of fields
   /// WARNING: This method is unsafe unless the tuple is explicitly made canonical and the types
@@ -574,9 +576,11 @@ public:
   void setRandomSeed(long unsigned int r) {
     _g.seed(static_cast<std::default_random_engine::result_type>(r));
   }
-  void cancel() { _cancel = true; }
+  void cancel() { *_cancel = true; }
+  const std::shared_ptr<std::atomic<bool>>& cancelFlag() const { return _cancel; }
+  void cancelFlag(const std::shared_ptr<std::atomic<bool>>& flag) { _cancel = flag; }
   void checkCancel() {
-    if (_cancel) {  // TODO: Should this be annotated "unlikely"?
+    if (*_cancel) {  // TODO: Should this be annotated "unlikely"?
       throw Timeout();
     }
   }
diff --git a/include/minizinc/flattener.hh b/include/minizinc/flattener.hh
index 699354a..6c70c08 100644
--- a/include/minizinc/flattener.hh
+++ b/include/minizinc/flattener.hh
@@ -41,6 +41,8 @@ namespace MiniZinc {
 class Flattener {
 private:
   std::unique_ptr<Env> _pEnv;
+  /// Shared with the environments that are used during compilation
+  std::shared_ptr<std::atomic<bool>> _cancel = std::make_shared<std::atomic<bool>>(false);
   std::ostream& _os;
   std::ostream& _log;
 
@@ -56,11 +58,8 @@ public:
                const std::string& modelName = std::string("stdin"));
   void printStatistics(std::ostream& os);
 
-  void cancel() {
-    if (_pEnv != nullptr) {
-      _pEnv->envi().cancel();
-    }
-  }
+  /// Stop compilation (may be called from another thread, and before compilation has started)
+  void cancel() { *_cancel = true; }
   void setFlagVerbose(bool f) { _flags.verbose = f; }
   bool getFlagVerbose() const { return _flags.verbose; }
   void setFlagStatistics(bool f) { _flags.statistics = f; }
diff --git a/lib/flattener.cpp b/lib/flattener.cpp
index 83d0377..993f045 100644
--- a/lib/flattener.cpp
+++ b/lib/flattener.cpp
@@ -605,6 +605,7 @@ void Flattener::flatten(const std::string& modelString, const std::string& model
     Model* m;
     _pEnv.reset(new Env(nullptr, _os, _log));
     Env* env = getEnv();
+    env->envi().cancelFlag(_cancel);
     env->envi().warnNonAuthoritativeNames = _flags.warnNonAuthoritativeNames;
     if (!_flags.compileSolutionCheckModel && !_flagSolutionCheckModel.empty()) {
       // Extract variables to check from solution check model
diff --git a/lib/passes/compile_pass.cpp b/lib/passes/compile_pass.cpp
index c6567d3..4f17da4 100644
--- a/lib/passes/compile_pass.cpp
+++ b/lib/passes/compile_pass.cpp
@@ -144,6 +144,7 @@ Env* CompilePass::run(Env* store, std::ostream& log) {
       return nullptr;
     }
     new_env->envi().copyPathMapsAndState(store->envi());
+    new_env->envi().cancelFlag(store->envi().cancelFlag());
   } else {
     new_env = _env;
   }
-- 
2.43.0


From 2947a85ba0f412bba3128bc97a7eb903e67bfdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:45 +0000
Subject: [PATCH 30/39] fix: solutions are not discarded if the time limit
 passed at the end of compilation

---
 include/minizinc/flattener.hh | 2 ++
 lib/solver.cpp                | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/minizinc/flattener.hh b/include/minizinc/flattener.hh
index 6c70c08..cafed3b 100644
--- a/include/minizinc/flattener.hh
+++ b/include/minizinc/flattener.hh
@@ -60,6 +60,8 @@ public:
 
   /// Stop compilation (may be called from another thread, and before compilation has started)
   void cancel() { *_cancel = true; }
+  /// Forget about cancellation (once compilation has finished)
+  void resetCancel() { *_cancel = false; }
   void setFlagVerbose(bool f) { _flags.verbose = f; }
   bool getFlagVerbose() const { return _flags.verbose; }
   void setFlagStatistics(bool f) { _flags.statistics = f; }
diff --git a/lib/solver.cpp b/lib/solver.cpp
index ab52f7f..74f3143 100644
--- a/lib/solver.cpp
+++ b/lib/solver.cpp
@@ -1013,6 +1013,9 @@ void MznSolver::flatten(const std::string& modelString, const std::string& model
   if (exc) {
     std::rethrow_exception(exc);
   }
+
+  // Compilation finished, output of solutions must not be cancelled if the time limit has just passed
+  _flt.resetCancel();
 }
 
 SolverInstance::Status MznSolver::solve() {
-- 
2.43.0


From ea9634041e8bef9a3d763888e874fe4841c660d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:19 +0000
Subject: [PATCH 31/39] fix: large time limits must not overflow

---
 lib/solver.cpp                     | 6 ++++++
 solvers/fzn/fzn_solverinstance.cpp | 7 ++++++-
 solvers/mzn/mzn_solverinstance.cpp | 7 ++++++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/solver.cpp b/lib/solver.cpp
index 74f3143..cc368e7 100644
--- a/lib/solver.cpp
+++ b/lib/solver.cpp
@@ -33,6 +33,7 @@
 #include <future>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <ratio>
 #include <sstream>
 
@@ -1102,6 +1103,8 @@ SolverInstance::Status MznSolver::run(const std::vector<std::string>& args0,
          flagOverallTimeLimit < time_limit)) {
       time_limit = flagOverallTimeLimit;
     }
+    // The limit of a solver is an int
+    time_limit = std::min(std::chrono::milliseconds(std::numeric_limits<int>::max()), time_limit);
     if (time_limit != std::chrono::milliseconds(0)) {
       std::vector<std::string> timeoutArgs(
           {"--solver-time-limit", std::to_string(time_limit.count())});
@@ -1159,6 +1162,9 @@ SolverInstance::Status MznSolver::run(const std::vector<std::string>& args0,
       }
       // Limits of 0 or less would mean that there is none
       time_left = std::max(std::chrono::milliseconds(1), time_left);
+      // The limit of a solver is an int
+      time_left =
+          std::min(std::chrono::milliseconds(std::numeric_limits<int>::max()), time_left);
       std::vector<std::string> timeoutArgs(
           {"--solver-time-limit", std::to_string(time_left.count())});
       int i = 0;
diff --git a/solvers/fzn/fzn_solverinstance.cpp b/solvers/fzn/fzn_solverinstance.cpp
index f4e7888..1b43911 100644
--- a/solvers/fzn/fzn_solverinstance.cpp
+++ b/solvers/fzn/fzn_solverinstance.cpp
@@ -23,8 +23,10 @@
 #include <minizinc/timer.hh>
 #include <minizinc/typecheck.hh>
 
+#include <algorithm>
 #include <cstdio>
 #include <fstream>
+#include <limits>
 
 using namespace std;
 
@@ -291,7 +293,10 @@ SolverInstance::Status FZNSolverInstance::solve() {
       oss << opt.solverTimeLimitMilliseconds;
       cmd_line.push_back(oss.str());
       // Wait for solver to stop itself, then force termination after cleanup time lapses
-      timelimit = opt.solverTimeLimitMilliseconds + opt.cleanupTimeLimitMilliseconds;
+      timelimit = static_cast<int>(
+          std::min(static_cast<long long int>(opt.solverTimeLimitMilliseconds) +
+                       opt.cleanupTimeLimitMilliseconds,
+                   static_cast<long long int>(std::numeric_limits<int>::max())));
     } else {
       // Solver won't stop itself, so have to interrupt it
       timelimit = opt.solverTimeLimitMilliseconds;
diff --git a/solvers/mzn/mzn_solverinstance.cpp b/solvers/mzn/mzn_solverinstance.cpp
index 4a1b43b..83d86a4 100644
--- a/solvers/mzn/mzn_solverinstance.cpp
+++ b/solvers/mzn/mzn_solverinstance.cpp
@@ -17,8 +17,10 @@
 #include <minizinc/solvers/mzn_solverinstance.hh>
 #include <minizinc/timer.hh>
 
+#include <algorithm>
 #include <cstdio>
 #include <fstream>
+#include <limits>
 
 using namespace std;
 
@@ -176,7 +178,10 @@ SolverInstance::Status MZNSolverInstance::solve() {
       oss << opt.solverTimeLimitMilliseconds;
       cmd_line.push_back(oss.str());
       // Wait for solver to stop itself, then force termination after cleanup time lapses
-      timelimit = opt.solverTimeLimitMilliseconds + opt.cleanupTimeLimitMilliseconds;
+      timelimit = static_cast<int>(
+          std::min(static_cast<long long int>(opt.solverTimeLimitMilliseconds) +
+                       opt.cleanupTimeLimitMilliseconds,
+                   static_cast<long long int>(std::numeric_limits<int>::max())));
     } else {
       // Solver won't stop itself, so have to interrupt it
       timelimit = opt.solverTimeLimitMilliseconds;
-- 
2.43.0


From bd667f1f223ab94e69493d9e07872ec8ef04c9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:54 +0000
Subject: [PATCH 32/39] fix: running out of memory in the scanner is reported

A failing strdup in the scanner or parser produced identifiers and
strings without a name.
---
 include/minizinc/parser.hh  | 10 ++++++
 lib/cached/lexer.yy.cpp     | 24 +++++++-------
 lib/cached/md5_cached.cmake |  4 +--
 lib/cached/parser.tab.cpp   | 66 ++++++++++++++++++-------------------
 lib/lexer.lxx               | 24 +++++++-------
 lib/parser.yxx              | 66 ++++++++++++++++++-------------------
 6 files changed, 104 insertions(+), 90 deletions(-)

diff --git a/include/minizinc/parser.hh b/include/minizinc/parser.hh
index a68ec6c..efe014f 100644
--- a/include/minizinc/parser.hh
+++ b/include/minizinc/parser.hh
@@ -49,6 +49,7 @@ class ParserLocation;
 #include <cstring>
 #include <iostream>
 #include <map>
+#include <new>
 #include <string>
 #include <utility>
 #include <vector>
@@ -65,6 +66,15 @@ class ParserLocation;
 
 namespace MiniZinc {
 
+/// Like strdup, but reports running out of memory as an exception
+inline char* checked_strdup(const char* s) {
+  char* copy = strdup(s);
+  if (copy == nullptr) {
+    throw std::bad_alloc();
+  }
+  return copy;
+}
+
 struct ParseWorkItem {
   Model* m;
   IncludeI* ii;
diff --git a/lib/cached/lexer.yy.cpp b/lib/cached/lexer.yy.cpp
index 422c7bd..2dda68b 100644
--- a/lib/cached/lexer.yy.cpp
+++ b/lib/cached/lexer.yy.cpp
@@ -1337,6 +1337,8 @@ namespace MiniZinc{ class ParserLocation; }
 
 #include <minizinc/parser.hh>
 
+using MiniZinc::checked_strdup;
+
 namespace MiniZinc {
 
   int utf8len(const char* s) {
@@ -1448,7 +1450,7 @@ namespace MiniZinc {
   char* bufferData(void* parm) {
     MiniZinc::ParserState* pp =
       static_cast<MiniZinc::ParserState*>(parm);
-    return strdup(pp->stringBuffer.c_str());
+    return checked_strdup(pp->stringBuffer.c_str());
   }
 }
 
@@ -2132,7 +2134,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-{ yylval->sValue = strdup(yytext); return MZN_FIELD_TAIL; }
+{ yylval->sValue = checked_strdup(yytext); return MZN_FIELD_TAIL; }
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
@@ -2601,18 +2603,18 @@ YY_RULE_SETUP
 case 152:
 YY_RULE_SETUP
 {
-                    yylval->sValue = strdup(yytext+1);
+                    yylval->sValue = checked_strdup(yytext+1);
                     yylval->sValue[strlen(yytext)-2] = 0;
                     return MZN_IDENTIFIER; }
 	YY_BREAK
 case 153:
 YY_RULE_SETUP
-{ yylval->sValue = strdup(yytext); return MZN_IDENTIFIER; }
+{ yylval->sValue = checked_strdup(yytext); return MZN_IDENTIFIER; }
 	YY_BREAK
 case 154:
 YY_RULE_SETUP
 {
-                    yylval->sValue = strdup(yytext); return MZN_IDENTIFIER; }
+                    yylval->sValue = checked_strdup(yytext); return MZN_IDENTIFIER; }
 	YY_BREAK
 case 155:
 YY_RULE_SETUP
@@ -2622,7 +2624,7 @@ YY_RULE_SETUP
                     if (parm->isFlatZinc) {
                       return QUOTED_IDENTIFIER;
                     } else {
-                      yylval->sValue = strdup(yytext + 1);
+                      yylval->sValue = checked_strdup(yytext + 1);
                       yylval->sValue[strlen(yytext)-2] = 0;
                       return MZN_IDENTIFIER;
                     }
@@ -2630,11 +2632,11 @@ YY_RULE_SETUP
 	YY_BREAK
 case 156:
 YY_RULE_SETUP
-{ yylval->sValue = strdup("forall"); return MZN_IDENTIFIER; }
+{ yylval->sValue = checked_strdup("forall"); return MZN_IDENTIFIER; }
 	YY_BREAK
 case 157:
 YY_RULE_SETUP
-{ yylval->sValue = strdup("exists"); return MZN_IDENTIFIER; }
+{ yylval->sValue = checked_strdup("exists"); return MZN_IDENTIFIER; }
 	YY_BREAK
 case 158:
 YY_RULE_SETUP
@@ -2703,12 +2705,12 @@ YY_RULE_SETUP
 case 174:
 YY_RULE_SETUP
 {
-  yylval->sValue = strdup(yytext+1); return MZN_TI_ENUM_IDENTIFIER; }
+  yylval->sValue = checked_strdup(yytext+1); return MZN_TI_ENUM_IDENTIFIER; }
 	YY_BREAK
 case 175:
 YY_RULE_SETUP
 {
-                    yylval->sValue = strdup(yytext+1); return MZN_TI_IDENTIFIER; }
+                    yylval->sValue = checked_strdup(yytext+1); return MZN_TI_IDENTIFIER; }
 	YY_BREAK
 case 176:
 YY_RULE_SETUP
@@ -2801,7 +2803,7 @@ case YY_STATE_EOF(string_quote):
 case 192:
 YY_RULE_SETUP
 {
-                    yylval->sValue = strdup(yytext+1);
+                    yylval->sValue = checked_strdup(yytext+1);
                     yylval->sValue[strlen(yytext)-2] = 0;
                     return MZN_QUOTED_IDENTIFIER; }
 	YY_BREAK
diff --git a/lib/cached/md5_cached.cmake b/lib/cached/md5_cached.cmake
index 32dd292..6c23935 100644
--- a/lib/cached/md5_cached.cmake
+++ b/lib/cached/md5_cached.cmake
@@ -1,4 +1,4 @@
-set(lexer_lxx_md5_cached "29c69cfc368018c0bf8fe3d63f00c677")
-set(parser_yxx_md5_cached "2ad2bd9f19d3b84a8b990223ad900b3e")
+set(lexer_lxx_md5_cached "373451191cafaf260522d69d537ea48e")
+set(parser_yxx_md5_cached "66ff1f63946ed85f3de96abebf95faa7")
 set(regex_lexer_lxx_md5_cached "d4bdc40f824511fb088b32f57405136c")
 set(regex_parser_yxx_md5_cached "e44695248dcfad64a56982f126f8e4f5")
\ No newline at end of file
diff --git a/lib/cached/parser.tab.cpp b/lib/cached/parser.tab.cpp
index ec83803..d4e2f76 100644
--- a/lib/cached/parser.tab.cpp
+++ b/lib/cached/parser.tab.cpp
@@ -7085,135 +7085,135 @@ yyreduce:
     break;
 
   case 437: /* id_or_quoted_op: "identifier" "^-1"  */
-      { (yyval.sValue)=strdup((std::string((yyvsp[-1].sValue))+"⁻¹").c_str()); }
+      { (yyval.sValue)=checked_strdup((std::string((yyvsp[-1].sValue))+"⁻¹").c_str()); }
     break;
 
   case 438: /* id_or_quoted_op: "'<->'"  */
-      { (yyval.sValue)=strdup("'<->'"); }
+      { (yyval.sValue)=checked_strdup("'<->'"); }
     break;
 
   case 439: /* id_or_quoted_op: "'->'"  */
-      { (yyval.sValue)=strdup("'->'"); }
+      { (yyval.sValue)=checked_strdup("'->'"); }
     break;
 
   case 440: /* id_or_quoted_op: "'<-'"  */
-      { (yyval.sValue)=strdup("'<-'"); }
+      { (yyval.sValue)=checked_strdup("'<-'"); }
     break;
 
   case 441: /* id_or_quoted_op: "'\\/'"  */
-      { (yyval.sValue)=strdup("'\\/'"); }
+      { (yyval.sValue)=checked_strdup("'\\/'"); }
     break;
 
   case 442: /* id_or_quoted_op: "'xor'"  */
-      { (yyval.sValue)=strdup("'xor'"); }
+      { (yyval.sValue)=checked_strdup("'xor'"); }
     break;
 
   case 443: /* id_or_quoted_op: "'/\\'"  */
-      { (yyval.sValue)=strdup("'/\\'"); }
+      { (yyval.sValue)=checked_strdup("'/\\'"); }
     break;
 
   case 444: /* id_or_quoted_op: "'<'"  */
-      { (yyval.sValue)=strdup("'<'"); }
+      { (yyval.sValue)=checked_strdup("'<'"); }
     break;
 
   case 445: /* id_or_quoted_op: "'>'"  */
-      { (yyval.sValue)=strdup("'>'"); }
+      { (yyval.sValue)=checked_strdup("'>'"); }
     break;
 
   case 446: /* id_or_quoted_op: "'<='"  */
-      { (yyval.sValue)=strdup("'<='"); }
+      { (yyval.sValue)=checked_strdup("'<='"); }
     break;
 
   case 447: /* id_or_quoted_op: "'>='"  */
-      { (yyval.sValue)=strdup("'>='"); }
+      { (yyval.sValue)=checked_strdup("'>='"); }
     break;
 
   case 448: /* id_or_quoted_op: "'='"  */
-      { (yyval.sValue)=strdup("'='"); }
+      { (yyval.sValue)=checked_strdup("'='"); }
     break;
 
   case 449: /* id_or_quoted_op: "'!='"  */
-      { (yyval.sValue)=strdup("'!='"); }
+      { (yyval.sValue)=checked_strdup("'!='"); }
     break;
 
   case 450: /* id_or_quoted_op: "'in'"  */
-      { (yyval.sValue)=strdup("'in'"); }
+      { (yyval.sValue)=checked_strdup("'in'"); }
     break;
 
   case 451: /* id_or_quoted_op: "'subset'"  */
-      { (yyval.sValue)=strdup("'subset'"); }
+      { (yyval.sValue)=checked_strdup("'subset'"); }
     break;
 
   case 452: /* id_or_quoted_op: "'superset'"  */
-      { (yyval.sValue)=strdup("'superset'"); }
+      { (yyval.sValue)=checked_strdup("'superset'"); }
     break;
 
   case 453: /* id_or_quoted_op: "'union'"  */
-      { (yyval.sValue)=strdup("'union'"); }
+      { (yyval.sValue)=checked_strdup("'union'"); }
     break;
 
   case 454: /* id_or_quoted_op: "'diff'"  */
-      { (yyval.sValue)=strdup("'diff'"); }
+      { (yyval.sValue)=checked_strdup("'diff'"); }
     break;
 
   case 455: /* id_or_quoted_op: "'symdiff'"  */
-      { (yyval.sValue)=strdup("'symdiff'"); }
+      { (yyval.sValue)=checked_strdup("'symdiff'"); }
     break;
 
   case 456: /* id_or_quoted_op: "'..'"  */
-      { (yyval.sValue)=strdup("'..'"); }
+      { (yyval.sValue)=checked_strdup("'..'"); }
     break;
 
   case 457: /* id_or_quoted_op: "'<..'"  */
-      { (yyval.sValue)=strdup("'<..'"); }
+      { (yyval.sValue)=checked_strdup("'<..'"); }
     break;
 
   case 458: /* id_or_quoted_op: "'..<'"  */
-      { (yyval.sValue)=strdup("'..<'"); }
+      { (yyval.sValue)=checked_strdup("'..<'"); }
     break;
 
   case 459: /* id_or_quoted_op: "'<..<'"  */
-      { (yyval.sValue)=strdup("'<..<'"); }
+      { (yyval.sValue)=checked_strdup("'<..<'"); }
     break;
 
   case 460: /* id_or_quoted_op: "'+'"  */
-      { (yyval.sValue)=strdup("'+'"); }
+      { (yyval.sValue)=checked_strdup("'+'"); }
     break;
 
   case 461: /* id_or_quoted_op: "'-'"  */
-      { (yyval.sValue)=strdup("'-'"); }
+      { (yyval.sValue)=checked_strdup("'-'"); }
     break;
 
   case 462: /* id_or_quoted_op: "'*'"  */
-      { (yyval.sValue)=strdup("'*'"); }
+      { (yyval.sValue)=checked_strdup("'*'"); }
     break;
 
   case 463: /* id_or_quoted_op: "'^'"  */
-      { (yyval.sValue)=strdup("'^'"); }
+      { (yyval.sValue)=checked_strdup("'^'"); }
     break;
 
   case 464: /* id_or_quoted_op: "'/'"  */
-      { (yyval.sValue)=strdup("'/'"); }
+      { (yyval.sValue)=checked_strdup("'/'"); }
     break;
 
   case 465: /* id_or_quoted_op: "'div'"  */
-      { (yyval.sValue)=strdup("'div'"); }
+      { (yyval.sValue)=checked_strdup("'div'"); }
     break;
 
   case 466: /* id_or_quoted_op: "'mod'"  */
-      { (yyval.sValue)=strdup("'mod'"); }
+      { (yyval.sValue)=checked_strdup("'mod'"); }
     break;
 
   case 467: /* id_or_quoted_op: "'intersect'"  */
-      { (yyval.sValue)=strdup("'intersect'"); }
+      { (yyval.sValue)=checked_strdup("'intersect'"); }
     break;
 
   case 468: /* id_or_quoted_op: "'not'"  */
-      { (yyval.sValue)=strdup("'not'"); }
+      { (yyval.sValue)=checked_strdup("'not'"); }
     break;
 
   case 469: /* id_or_quoted_op: "'++'"  */
-      { (yyval.sValue)=strdup("'++'"); }
+      { (yyval.sValue)=checked_strdup("'++'"); }
     break;
 
 
diff --git a/lib/lexer.lxx b/lib/lexer.lxx
index 39a8e7b..255a502 100644
--- a/lib/lexer.lxx
+++ b/lib/lexer.lxx
@@ -35,6 +35,8 @@ namespace MiniZinc{ class ParserLocation; }
 
 #include <minizinc/parser.hh>
 
+using MiniZinc::checked_strdup;
+
 namespace MiniZinc {
 
   int utf8len(const char* s) {
@@ -146,7 +148,7 @@ namespace MiniZinc {
   char* bufferData(void* parm) {
     MiniZinc::ParserState* pp =
       static_cast<MiniZinc::ParserState*>(parm);
-    return strdup(pp->stringBuffer.c_str());
+    return checked_strdup(pp->stringBuffer.c_str());
   }
 }
 
@@ -251,7 +253,7 @@ namespace MiniZinc {
                       return MZN_INVALID_FLOAT_LITERAL;
                   }
 [:;|{},\[\]]      { return *yytext; }
-([ \f\xd\t]*\.[ \f\xd\t]*(([0-9]+)|(_?[A-Za-z][A-Za-z0-9_]*)|('[^\\'\xa\xd\x0]+')))+ { yylval->sValue = strdup(yytext); return MZN_FIELD_TAIL; }
+([ \f\xd\t]*\.[ \f\xd\t]*(([0-9]+)|(_?[A-Za-z][A-Za-z0-9_]*)|('[^\\'\xa\xd\x0]+')))+ { yylval->sValue = checked_strdup(yytext); return MZN_FIELD_TAIL; }
 \.\.              { return MZN_DOTDOT; }
 "'\.\.'"          { return MZN_DOTDOT_QUOTED; }
 "\.\.<"           { return MZN_DOTDOT_LE; }
@@ -371,28 +373,28 @@ _                 { return MZN_UNDERSCORE; }
 "~div"            { return MZN_WEAK_IDIV; }
 
 "'~"[+*=/-]"'"    {
-                    yylval->sValue = strdup(yytext+1);
+                    yylval->sValue = checked_strdup(yytext+1);
                     yylval->sValue[strlen(yytext)-2] = 0;
                     return MZN_IDENTIFIER; }
 
-"_objective"      { yylval->sValue = strdup(yytext); return MZN_IDENTIFIER; }
+"_objective"      { yylval->sValue = checked_strdup(yytext); return MZN_IDENTIFIER; }
 
 _?[A-Za-z][A-Za-z0-9_]* {
-                    yylval->sValue = strdup(yytext); return MZN_IDENTIFIER; }
+                    yylval->sValue = checked_strdup(yytext); return MZN_IDENTIFIER; }
 "'"[^'\xa\xd\x0]+"'" {
                     MiniZinc::ParserState* parm =
                     static_cast<MiniZinc::ParserState*>(yyget_extra(yyscanner));
                     if (parm->isFlatZinc) {
                       return QUOTED_IDENTIFIER;
                     } else {
-                      yylval->sValue = strdup(yytext + 1);
+                      yylval->sValue = checked_strdup(yytext + 1);
                       yylval->sValue[strlen(yytext)-2] = 0;
                       return MZN_IDENTIFIER;
                     }
                     }
 
-"\xE2\x88\x80"      { yylval->sValue = strdup("forall"); return MZN_IDENTIFIER; }
-"\xE2\x88\x83"      { yylval->sValue = strdup("exists"); return MZN_IDENTIFIER; }
+"\xE2\x88\x80"      { yylval->sValue = checked_strdup("forall"); return MZN_IDENTIFIER; }
+"\xE2\x88\x83"      { yylval->sValue = checked_strdup("exists"); return MZN_IDENTIFIER; }
 "\xE2\x88\x88"      { return MZN_IN; }
 "\xE2\x8A\x86"      { return MZN_SUBSET; }
 "\xE2\x8A\x87"      { return MZN_SUPERSET; }
@@ -411,10 +413,10 @@ _?[A-Za-z][A-Za-z0-9_]* {
 "\xE2\x81\xBB\xC2\xB9" { return MZN_POW_MINUS1; }
 
 $$[A-Za-z][A-Za-z0-9_]* {
-  yylval->sValue = strdup(yytext+1); return MZN_TI_ENUM_IDENTIFIER; }
+  yylval->sValue = checked_strdup(yytext+1); return MZN_TI_ENUM_IDENTIFIER; }
 
 $[A-Za-z][A-Za-z0-9_]* {
-                    yylval->sValue = strdup(yytext+1); return MZN_TI_IDENTIFIER; }
+                    yylval->sValue = checked_strdup(yytext+1); return MZN_TI_IDENTIFIER; }
 
 "(" { yy_push_state(bracket_exp,yyscanner); return *yytext; }
 <bracket_exp>")" { yy_pop_state(yyscanner); return *yytext; }
@@ -456,7 +458,7 @@ $[A-Za-z][A-Za-z0-9_]* {
 <string,string_quote><<EOF>> { yy_pop_state(yyscanner); return MZN_UNTERMINATED_STRING; }
 
 `[A-Za-z][A-Za-z0-9_]*` {
-                    yylval->sValue = strdup(yytext+1);
+                    yylval->sValue = checked_strdup(yytext+1);
                     yylval->sValue[strlen(yytext)-2] = 0;
                     return MZN_QUOTED_IDENTIFIER; }
 
diff --git a/lib/parser.yxx b/lib/parser.yxx
index 4b1c91f..634fc82 100644
--- a/lib/parser.yxx
+++ b/lib/parser.yxx
@@ -2698,68 +2698,68 @@ id_or_quoted_op :
       MZN_IDENTIFIER
       { $$=$1; }
     | MZN_IDENTIFIER MZN_POW_MINUS1
-      { $$=strdup((std::string($1)+"⁻¹").c_str()); }
+      { $$=checked_strdup((std::string($1)+"⁻¹").c_str()); }
     | MZN_EQUIV_QUOTED
-      { $$=strdup("'<->'"); }
+      { $$=checked_strdup("'<->'"); }
     | MZN_IMPL_QUOTED
-      { $$=strdup("'->'"); }
+      { $$=checked_strdup("'->'"); }
     | MZN_RIMPL_QUOTED
-      { $$=strdup("'<-'"); }
+      { $$=checked_strdup("'<-'"); }
     | MZN_OR_QUOTED
-      { $$=strdup("'\\/'"); }
+      { $$=checked_strdup("'\\/'"); }
     | MZN_XOR_QUOTED
-      { $$=strdup("'xor'"); }
+      { $$=checked_strdup("'xor'"); }
     | MZN_AND_QUOTED
-      { $$=strdup("'/\\'"); }
+      { $$=checked_strdup("'/\\'"); }
     | MZN_LE_QUOTED
-      { $$=strdup("'<'"); }
+      { $$=checked_strdup("'<'"); }
     | MZN_GR_QUOTED
-      { $$=strdup("'>'"); }
+      { $$=checked_strdup("'>'"); }
     | MZN_LQ_QUOTED
-      { $$=strdup("'<='"); }
+      { $$=checked_strdup("'<='"); }
     | MZN_GQ_QUOTED
-      { $$=strdup("'>='"); }
+      { $$=checked_strdup("'>='"); }
     | MZN_EQ_QUOTED
-      { $$=strdup("'='"); }
+      { $$=checked_strdup("'='"); }
     | MZN_NQ_QUOTED
-      { $$=strdup("'!='"); }
+      { $$=checked_strdup("'!='"); }
     | MZN_IN_QUOTED
-      { $$=strdup("'in'"); }
+      { $$=checked_strdup("'in'"); }
     | MZN_SUBSET_QUOTED
-      { $$=strdup("'subset'"); }
+      { $$=checked_strdup("'subset'"); }
     | MZN_SUPERSET_QUOTED
-      { $$=strdup("'superset'"); }
+      { $$=checked_strdup("'superset'"); }
     | MZN_UNION_QUOTED
-      { $$=strdup("'union'"); }
+      { $$=checked_strdup("'union'"); }
     | MZN_DIFF_QUOTED
-      { $$=strdup("'diff'"); }
+      { $$=checked_strdup("'diff'"); }
     | MZN_SYMDIFF_QUOTED
-      { $$=strdup("'symdiff'"); }
+      { $$=checked_strdup("'symdiff'"); }
     | MZN_DOTDOT_QUOTED
-      { $$=strdup("'..'"); }
+      { $$=checked_strdup("'..'"); }
     | MZN_LE_DOTDOT_QUOTED
-      { $$=strdup("'<..'"); }
+      { $$=checked_strdup("'<..'"); }
     | MZN_DOTDOT_LE_QUOTED
-      { $$=strdup("'..<'"); }
+      { $$=checked_strdup("'..<'"); }
     | MZN_LE_DOTDOT_LE_QUOTED
-      { $$=strdup("'<..<'"); }
+      { $$=checked_strdup("'<..<'"); }
     | MZN_PLUS_QUOTED
-      { $$=strdup("'+'"); }
+      { $$=checked_strdup("'+'"); }
     | MZN_MINUS_QUOTED
-      { $$=strdup("'-'"); }
+      { $$=checked_strdup("'-'"); }
     | MZN_MULT_QUOTED
-      { $$=strdup("'*'"); }
+      { $$=checked_strdup("'*'"); }
     | MZN_POW_QUOTED
-      { $$=strdup("'^'"); }
+      { $$=checked_strdup("'^'"); }
     | MZN_DIV_QUOTED
-      { $$=strdup("'/'"); }
+      { $$=checked_strdup("'/'"); }
     | MZN_IDIV_QUOTED
-      { $$=strdup("'div'"); }
+      { $$=checked_strdup("'div'"); }
     | MZN_MOD_QUOTED
-      { $$=strdup("'mod'"); }
+      { $$=checked_strdup("'mod'"); }
     | MZN_INTERSECT_QUOTED
-      { $$=strdup("'intersect'"); }
+      { $$=checked_strdup("'intersect'"); }
     | MZN_NOT_QUOTED
-      { $$=strdup("'not'"); }
+      { $$=checked_strdup("'not'"); }
     | MZN_PLUSPLUS_QUOTED
-      { $$=strdup("'++'"); }
+      { $$=checked_strdup("'++'"); }
-- 
2.43.0


From 11b8c001811323537753f28ceb303025eac17b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:36 +0000
Subject: [PATCH 33/39] fix: Cbc running out of time in preprocessing is not
 infeasibility

---
 solvers/MIP/MIP_osicbc_wrap.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/solvers/MIP/MIP_osicbc_wrap.cpp b/solvers/MIP/MIP_osicbc_wrap.cpp
index 4771bb2..e019500 100644
--- a/solvers/MIP/MIP_osicbc_wrap.cpp
+++ b/solvers/MIP/MIP_osicbc_wrap.cpp
@@ -642,8 +642,15 @@ MIPosicbcWrapper::Status MIPosicbcWrapper::convertStatus(CbcModel* pModel) {
     s = Status::OPT;
     output.statusName = "Optimal";
   } else if (pModel->isProvenInfeasible()) {
-    s = Status::UNSAT;
-    output.statusName = "Infeasible";
+    if (pModel->secondaryStatus() == 1 &&
+        pModel->getCurrentSeconds() >= pModel->getMaximumSeconds()) {
+      // Preprocessing also claims infeasibility if it runs out of time
+      s = Status::UNKNOWN;
+      output.statusName = "Unknown";
+    } else {
+      s = Status::UNSAT;
+      output.statusName = "Infeasible";
+    }
   } else if (pModel->isProvenDualInfeasible()) {
     s = Status::UNBND;
     output.statusName = "Dual infeasible";
-- 
2.43.0


From 04188173a35fde5646001d1cf2482ba527d5c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:36 +0000
Subject: [PATCH 34/39] fix: solver configurations are loaded in a fixed order

---
 lib/file_utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/file_utils.cpp b/lib/file_utils.cpp
index 7cf9e67..aec9371 100644
--- a/lib/file_utils.cpp
+++ b/lib/file_utils.cpp
@@ -371,6 +371,8 @@ std::vector<std::string> directory_list(const std::string& dir, const std::strin
     closedir(dirp);
   }
 #endif
+  // the order in which the system lists a directory is unspecified
+  std::sort(entries.begin(), entries.end());
   return entries;
 }
 
-- 
2.43.0


From 8179288ddc0316bca1792ed691feaf722c9cff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:36 +0000
Subject: [PATCH 35/39] fix: default solvers and tags may have upper-case
 letters

---
 lib/solver_config.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/solver_config.cpp b/lib/solver_config.cpp
index 50598f9..17de2ea 100644
--- a/lib/solver_config.cpp
+++ b/lib/solver_config.cpp
@@ -574,11 +574,13 @@ void SolverConfigs::addConfig(const MiniZinc::SolverConfig& sc) {
 
   // Add default tag if the solver is marked as the overall default
   DefaultMap::const_iterator def_it = _tagDefault.find("");
-  if (def_it != _tagDefault.end() && def_it->second == id) {
+  if (def_it != _tagDefault.end() && def_it->second == sc.id()) {
     sc_tags.emplace_back("default");
   }
 
-  for (const auto& t : sc_tags) {
+  for (const auto& sc_tag : sc_tags) {
+    // Solvers are looked up by the lower case tag
+    const std::string t = string_to_lower(sc_tag);
     auto it = _tags.find(t);
     if (it == _tags.end()) {
       _tags.insert(std::make_pair(t, std::vector<int>({newIdx})));
@@ -625,7 +627,7 @@ SolverConfigs::SolverConfigs(std::ostream& log) {
             } else if (ai->id() == "tagDefaults") {
               std::vector<std::pair<std::string, std::string> > tagDefs = get_string_pair_list(ai);
               for (auto& td : tagDefs) {
-                std::string tag = td.first;
+                std::string tag = string_to_lower(td.first);
                 std::string solver_id = td.second;
                 _tagDefault[tag] = solver_id;
               }
@@ -814,7 +816,7 @@ SolverConfig& SolverConfigs::config(const std::string& _s) {
   if (tags.empty()) {
     DefaultMap::const_iterator def_it = _tagDefault.find("");
     if (def_it != _tagDefault.end()) {
-      firstTag = def_it->second;
+      firstTag = string_to_lower(def_it->second);
     } else {
       throw ConfigException("no solver selected");
     }
-- 
2.43.0


From 2a9f4e59b75dfdb1774d838c6da8d73af5485b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:54 +0000
Subject: [PATCH 36/39] fix: cores may name assumptions that are not subject to
 CSE

---
 lib/flatten/flatten_call.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index e654c10..0fadb58 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -367,6 +367,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
   ASTString cid = c->id();
   CallStackItem _csi(env, e, input_ctx);
 
+  KeepAlive flatAssume;
   if (cid == env.constants.ids.assume && c->argCount() == 1) {
     // Assumptions are a global, top-level directive; they are meaningless when reified or
     // negated, so `assume` may only appear in a root context.
@@ -376,10 +377,9 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
     }
     // Record, for each FlatZinc variable an assumption flattens to, the expression it should
     // be reported as in an unsatisfiable core (`%%%mzn-core:`). The whole argument is
-    // flattened here to obtain the element variables; the library `assume` decomposition
-    // re-flattens the same argument, reusing these variables via common subexpression
-    // elimination. This does not alter the call: normal (library-driven) flattening proceeds
-    // afterwards.
+    // flattened here to obtain the element variables; the library `assume` decomposition is
+    // then called with these variables (flattening the argument again would introduce different
+    // variables for expressions that are not subject to common subexpression elimination).
     env.assumptionsUsed = true;
     Expression* arg = c->arg(0);
 
@@ -398,7 +398,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
     // Flatten in a positive context, matching the monotone context the library `assume`
     // decomposition uses for its `promise_ctx_monotone` argument (`+C_ROOT == C_POS`). This
     // reifies each assumption to a variable while enabling half-reification, and ensures the
-    // variables recorded here are the same ones the decomposition reuses (via CSE).
+    // variables recorded here are the ones the decomposition uses.
     Ctx ectx;
     ectx.b = +ctx.b;
     EE ee = flat_exp(env, ectx, arg, nullptr, env.constants.varTrue);
@@ -420,6 +420,12 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
         }
         env.assumptionExprs.insert({vd->id()->str(), src});
       }
+      Call* flatCall = Call::a(Expression::loc(c), c->id(), {ee.r()});
+      flatCall->type(c->type());
+      flatCall->decl(c->decl());
+      Expression::ann(flatCall).merge(Expression::ann(c));
+      c = flatCall;
+      flatAssume = flatCall;
     }
   }
 
-- 
2.43.0


From 6acb268c2efbc4e0a79e05bc7523ef45cdcac8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:54 +0000
Subject: [PATCH 37/39] fix: assumptions must not tighten bounds in an
 intermediate pass

---
 lib/flatten/flatten_call.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index 0fadb58..edf797f 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -375,6 +375,13 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
       throw FlatteningError(env, Expression::loc(c),
                             "the `assume` predicate can only be used in a root context");
     }
+    if (env.multiPassInfo.currentPassNumber + 1 < env.multiPassInfo.finalPassNumber) {
+      // The bounds found in this pass become part of the problem in the next one, so they must
+      // not depend on the assumptions.
+      ret.b = bind(env, ctx, b, env.constants.literalTrue);
+      ret.r = bind(env, ctx, r, env.constants.literalTrue);
+      return ret;
+    }
     // Record, for each FlatZinc variable an assumption flattens to, the expression it should
     // be reported as in an unsatisfiable core (`%%%mzn-core:`). The whole argument is
     // flattened here to obtain the element variables; the library `assume` decomposition is
-- 
2.43.0


From f135fcdd328b9554cd0d7809b380fe2fa404134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:59 +0000
Subject: [PATCH 38/39] fix: results of common subexpression elimination may be
 collected while they are reused

---
 lib/flatten/flatten_call.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index edf797f..7683ab1 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -1113,19 +1113,21 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
       cit = env.cseMapFind(cr());
     }
     if (cit != env.cseMapEnd()) {
+      // The entry does not keep its result alive, and is removed if the result is collected
+      EE cse(cit->second.r, cit->second.b);
       if (Expression::type(e).isbool() && !Expression::type(e).isOpt()) {
-        cse_result_change_ctx(env, cit->second.r, ctx.b);
+        cse_result_change_ctx(env, cse.r(), ctx.b);
         ret.b = bind(env, Ctx(), b, env.constants.literalTrue);
-        args_ee.emplace_back(nullptr, cit->second.r);
+        args_ee.emplace_back(nullptr, cse.r());
         ret.r = conj(env, r, ctx, args_ee);
       } else {
         if (env.ignorePartial) {
           ret.b = bind(env, Ctx(), b, env.constants.literalTrue);
         } else {
-          args_ee.emplace_back(nullptr, cit->second.b);
+          args_ee.emplace_back(nullptr, cse.b());
           ret.b = conj(env, b, Ctx(), args_ee);
         }
-        ret.r = bind(env, ctx, r, cit->second.r);
+        ret.r = bind(env, ctx, r, cse.r());
       }
     } else {
       for (unsigned int i = 0; i < decl->paramCount(); i++) {
-- 
2.43.0


From 49fe994aeee8d4a0052a79d4ed25855166dcb57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:15 +0000
Subject: [PATCH 39/39] fix: names of arrays were forgotten at every garbage
 collection

---
 include/minizinc/flatten_internal.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/minizinc/flatten_internal.hh b/include/minizinc/flatten_internal.hh
index 2ae6d76..3128e4a 100644
--- a/include/minizinc/flatten_internal.hh
+++ b/include/minizinc/flatten_internal.hh
@@ -333,7 +333,8 @@ public:
     void fixWeakRefs() override {
       std::vector<Expression*> toRemove;
       for (auto& it : _m) {
-        if (!Expression::hasMark(it.second.r) || !Expression::hasMark(it.second.b)) {
+        if (!Expression::hasMark(it.second.r) ||
+            (it.second.b != nullptr && !Expression::hasMark(it.second.b))) {
           toRemove.push_back(it.first);
         }
       }
-- 
2.43.0


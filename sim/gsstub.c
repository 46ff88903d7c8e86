/* stand-in for gsutil cp -R URL DIR: copies $GS_REMOTE/<scene> file by file, like gsutil under a
   temporary name first.  $GS_REMOTE/<scene>.how: ms per file, file at which to fail (or -1), whether
   the temporary file of the failed transfer stays */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

static void nap(int ms){ struct timespec t = { ms / 1000, ms % 1000 * 1000000L }; if (ms) nanosleep(&t, NULL); }

int main(int argc, char **argv){
  char p[4096], q[4096], t[4096], b[65536];
  char n1[32];
  int last = 0, ms = 0, failat = -1, leave = 0;
  const char *url = NULL, *dst = argv[argc - 1], *rem = getenv("GS_REMOTE");
  for (int i = 1; i < argc; i++) if (!strncmp(argv[i], "gs://", 5)) url = argv[i];
  if (!url || !rem) return 2;
  const char *id = strrchr(url, '/') + 1;
  snprintf(p, sizeof p, "%s/%s.how", rem, id);
  FILE *f = fopen(p, "r");
  if (!f){ fprintf(stderr, "CommandException: No URLs matched: %s\n", url); return 1; }
  if (fscanf(f, "%d %d %d", &ms, &failat, &leave) != 3) return 2;
  fclose(f);
  snprintf(p, sizeof p, "%s/%s", dst, id);
  mkdir(p, 0755);
  for (int k = 0;; k++){
    snprintf(n1, sizeof n1, "f%d", k);
    snprintf(p, sizeof p, "%s/%s/%s", rem, id, n1);
    if (!(f = fopen(p, "r"))){          /* the file that makes the scene processable comes last */
      if (last) break;
      last = 1;
      strcpy(n1, "work");
      snprintf(p, sizeof p, "%s/%s/%s", rem, id, n1);
      if (!(f = fopen(p, "r"))) break;
    }
    size_t n = fread(b, 1, sizeof b, f);
    fclose(f);
    snprintf(q, sizeof q, "%s/%s/%s", dst, id, n1);
    snprintf(t, sizeof t, "%s_.gstmp", q);
    if (!(f = fopen(t, "w"))) return 1;
    setvbuf(f, NULL, _IONBF, 0);
    if (fwrite(b, 1, n / 2, f) != n / 2) return 1;
    nap(ms);
    if (k == failat){
      fclose(f);
      if (!leave) unlink(t);
      fprintf(stderr, "CommandException: 1 file/object could not be transferred.\n");
      return 1;
    }
    if (fwrite(b + n / 2, 1, n - n / 2, f) != n - n / 2) return 1;
    if (fclose(f)) return 1;
    if (rename(t, q)) return 1;
  }
  return 0;
}

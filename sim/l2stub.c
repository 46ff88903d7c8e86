/* stand-in for force-l2ps: "IMAGE/work" says how long the image takes (ms) and the exit code */
#include <stdio.h>
#include <string.h>
#include <time.h>

int main(int argc, char **argv){
  char p[4096];
  int ms = 0, rc = 1;
  if (argc == 2 && !strcmp(argv[1], "-d")) return 0;
  if (argc < 3) return 1;
  snprintf(p, sizeof(p), "%s/work", argv[1]);
  FILE *f = fopen(p, "r");
  if (!f){ printf("no such image: %s\n", argv[1]); return 1; }
  if (fscanf(f, "%d %d", &ms, &rc) != 2) rc = 1;
  fclose(f);
  struct timespec t = { ms / 1000, ms % 1000 * 1000000L };
  nanosleep(&t, NULL);
  return rc;
}

/* observe FILE OUT N INTERVAL_US STEP: reads FILE over and over like any other program
   would and notes every change of what it sees: "absent" or its content */
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

int main(int argc, char **argv){
  static char now[1 << 16], old[1 << 16];
  int have = -2, n = atoi(argv[3]), us = atoi(argv[4]), step = atoi(argv[5]);
  (void)argc;
  int out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
  for (int i = 0; i < n; i++){
    int len = -1, fd = open(argv[1], O_RDONLY);
    if (fd >= 0){
      ssize_t k;
      len = 0;
      while (len + step < (int)sizeof(now) && (k = read(fd, now + len, step)) > 0) len += k;
      close(fd);
      if (k < 0) len = have;   /* the reader's own error: nothing seen */
    } else if (errno != ENOENT) len = have;
    if (len == have && (fd < 0 || len < 0)){ usleep(us); continue; }
    if (len != have || (len > 0 && memcmp(now, old, len))){
      char h[64];
      int m = snprintf(h, sizeof(h), "%d\n", len);
      if (write(out, h, m) != m || (len > 0 && write(out, now, len) != len)) return 1;
      have = len;
      if (len > 0) memcpy(old, now, len);
    }
    usleep(us);
  }
  return 0;
}

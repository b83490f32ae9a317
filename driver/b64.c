/* Direct driver of the base64 helpers: reads operations (E hexbytes | D hextext), writes results to the file argv[1]. */
#include "nodeset_base64.h"

static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

int main(int argc, char **argv) {
    FILE *o = fopen(argv[1], "w");
    if(!o) return 2;
    static char line[1 << 20];
    while(fgets(line, sizeof line, stdin)) {
        size_t n = strlen(line);
        while(n && (line[n - 1] == '\n')) line[--n] = 0;
        if(n < 2) continue;
        size_t len = (n - 2) / 2;
        char *in = (char *)malloc(len + 1);
        for(size_t i = 0; i < len; i++) in[i] = (char)(hexv(line[2 + 2 * i]) * 16 + hexv(line[3 + 2 * i]));
        in[len] = 0;
        int flen = -12345;
        unsigned char *r;
        if(line[0] == 'E') {
            char *exact = (char *)malloc(len ? len : 1);
            memcpy(exact, in, len);
            r = (unsigned char *)base64(exact, (int)len, &flen);
            free(exact);
        } else r = unbase64(in, (int)len, &flen);
        if(!r) fprintf(o, "null %d\n", flen);
        else {
            fprintf(o, "%d ", flen);
            for(int i = 0; i < flen; i++) fprintf(o, "%02x", r[i]);
            if(line[0] == 'E') fprintf(o, " %d", (int)(r[flen] == 0));
            fprintf(o, "\n");
        }
        free(r); free(in);
    }
    fclose(o);
    return 0;
}

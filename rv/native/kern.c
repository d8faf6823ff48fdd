/* Driver of one compiled interpolation routine (the file under test is named by
 * KERNEL_FILE and compiled in here, so that the sanitizers instrument it).  Every
 * array is a heap block of exactly its size; the output starts as a sentinel. */
#include KERNEL_FILE
#include <string.h>

static void rd(FILE *f, void *p, size_t n) { if (fread(p, 1, n, f) != n) { fprintf(stderr, "DRIVER short read\n"); _Exit(7); } }

static double *block(FILE *f, size_t n)
{
	double *p = (double *)malloc(n * sizeof(double) + (n == 0));
	rd(f, p, n * sizeof(double));
	return p;
}

int main(int argc, char **argv)
{
	FILE *f = fopen(argv[1], "rb"), *g = fopen(argv[2], "wb");
	int ncase, c, h[6];
	size_t k;
	rd(f, &ncase, sizeof ncase);
	for (c = 0; c < ncase; ++c)
	{
		rd(f, h, sizeof h);            /* nx, ny, mx, my, threads, - */
		fprintf(stderr, "CASE %d\n", c);
		double *img = block(f, (size_t)h[0] * h[1]);
		double *cp = (double *)malloc((size_t)h[0] * h[1] * sizeof(double));
		memcpy(cp, img, (size_t)h[0] * h[1] * sizeof(double));
		size_t m = (size_t)h[2] * h[3];
		double *out = (double *)malloc(m * sizeof(double) + (m == 0));
		for (k = 0; k < m; ++k) out[k] = -7.25e33;
#ifdef SZOOM
		double mag;
		rd(f, &mag, sizeof mag);
		prop_szoom_c(img, h[0], out, h[2], mag);
#else
		double *x = block(f, m), *y = block(f, m);
		cubic_conv_c(img, h[0], h[1], out, h[2], h[3], x, y, h[4]);
		free(x); free(y);
#endif
		int changed = memcmp(cp, img, (size_t)h[0] * h[1] * sizeof(double)) != 0;
		fwrite(&changed, sizeof changed, 1, g);
		fwrite(out, sizeof(double), m, g);
		free(img); free(cp); free(out);
	}
	fclose(f); fclose(g);
	fprintf(stderr, "DONE\n");
	return 0;
}

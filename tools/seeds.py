"""The planted bugs: single-purpose changes to original lines of /repo with a demonstration each."""
C, P, A, G = "modules/core/src/c_src/", "modules/process/src/c_src/", "modules/algorithm/src/", "modules/highgui/src/"
H, X = "modules/core/include/c_include/", "modules/core/include/cxx_include/hypermat.hpp"
SEEDS = []
def seed(id, p, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, p=p, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

seed("c01-copyto-layout", "C01", [(C+"hypermat.c", 439, "i<3", "i<2")],
 "an in-place conversion between bil and bip, followed by any use of the layout",
 "hyper_mat_copy_to copies two of the three letters of the layout, so a bil cube converted in place to bip still says bil",
 r'''
int main() {
	hyper_mat m = create_hyper_mat(3, 2, 4, 2, "bil");
	for (int i = 0; i < 24; i++) ((short*)m->data)[i] = i * 7;
	hyper_mat o = hyper_mat_copy(m);
	convert2bip(m);
	REQ(m->interleave[2] == 'p');
	convert2bil(m);
	REQ(memcmp(m->data, o->data, 48) == 0);
	return 0;
}''')
seed("c01-wide-samples", "C01", [(P+"imageprocess.c", 362, "t<elem_size", "t<elem_size && t<(int)sizeof(float)")],
 "a cube of 8-byte samples (types 5, 14, 15) converted from bip to bil",
 "bip2bil moves at most four bytes of each sample; the upper half of doubles and long integers is lost",
 r'''
int main() {
	hyper_mat m = create_hyper_mat(3, 2, 2, 5, "bip");
	for (int i = 0; i < 12; i++) ((double*)m->data)[i] = i + 0.1;
	hyper_mat b = bip2bil(m), r = bil2bip(b);
	REQ(memcmp(m->data, r->data, 12 * 8) == 0);
	return 0;
}''')
seed("c02-range-line", "C02", [(P+"imageprocess.c", 454, "i * src_samples", "i * samples")],
 "cutting fewer columns than the cube has out of a bsq cube, from a row below the first",
 "hyper_mat_get_range of a bsq cube steps over lines with the width of the cut instead of the width of the cube",
 r'''
int main() {
	hyper_mat m = create_hyper_mat(4, 3, 2, 1, "bsq");
	for (int i = 0; i < 24; i++) ((char*)m->data)[i] = i;
	hyper_mat r = hyper_mat_get_range(m, 1, 1, 0, 3, 3, 2);
	for (int k = 0; k < 2; k++) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
		REQ(((char*)r->data)[k*4+i*2+j] == k*12+(i+1)*4+j+1);
	return 0;
}''')
seed("c02-splice-type", "C02", [(P+"spectralprocess.c", 203, "get_elemsize(src_mat ->data_type)", "get_elemsize(src_mat->data_type) > 4 ? 4 : get_elemsize(src_mat->data_type)")],
 "transposing the bands of a cube whose samples take eight bytes",
 "hyper_mat_transport treats 8-byte samples as 4-byte ones",
 r'''
int main() {
	hyper_mat s = create_hyper_mat(3, 2, 1, 5, "bsq"), d = create_hyper_mat(2, 3, 1, 5, "bsq");
	for (int i = 0; i < 6; i++) ((double*)s->data)[i] = i + 0.5;
	hyper_mat_transport(d, s);
	for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) REQ(((double*)d->data)[i*2+j] == j*3+i+0.5);
	return 0;
}''')
seed("c03-dirty-heap", "C03", [(C+"hypermat.c", 191, "mat_data_size", "(long int)samples * lines * bands")],
 "a cube of samples wider than one byte, created in memory that the heap hands out again",
 "create_hyper_mat clears as many bytes as there are samples, so the rest of a new cube keeps what was freed before",
 r'''
int main() {
	for (int n = 0; n < 8; n++) { void* p = malloc(600); memset(p, 0x5a, 600); free(p); }
	for (int n = 1; n < 60; n++) {
		void* p = malloc(200 + n * 8); memset(p, 0x5a, 200 + n * 8); free(p);
		hyper_mat m = create_hyper_mat(n, 1, 1, 5, "bsq");
		for (int i = 0; i < n; i++) REQ(((double*)m->data)[i] == 0);
		delete_hyper_mat(m);
	}
	return 0;
}''')
seed("c04-wave-overrun", "C04", [(P+"imageprocess.c", 471, "(end_band-start_band)", "(src_bands-start_band)")],
 "a range that ends well before the last band of a cube with many bands",
 "hyper_mat_get_range copies the wavelengths of all bands to the end of the cube into the smaller result, past its block",
 r'''
#include <dlfcn.h>
#include <sys/mman.h>
static const unsigned char G = 0xD7;
static size_t last; static unsigned char* lastp;
extern "C" void* __libc_malloc(size_t);
extern "C" void* malloc(size_t n) {
	unsigned char* p = (unsigned char*)__libc_malloc(n + 8192);
	if (p) { memset(p + n, G, 8192); last = n; lastp = p; }
	return p;
}
int main() {
	hyper_mat m = create_hyper_mat(2, 2, 1000, 1, "bsq");
	hyper_mat r = hyper_mat_get_range(m, 0, 0, 0, 1, 1, 2);
	REQ((void*)r == (void*)lastp);
	for (int i = 0; i < 8000; i++) REQ(lastp[last + i] == G);
	return 0;
}''')
seed("c04-sam-leak", "C04", [(P+"spectralprocess.c", 76, "free(temp);", "if(bands == 1) free(temp);")],
 "many matches of cubes of more than one band in one process",
 "spectrum_SAM_match keeps its scratch spectrum of every call",
 r'''
#include <malloc.h>
int main() {
	hyper_mat m = create_hyper_mat(2, 2, 500, 4, "bip");
	for (int i = 0; i < 2000; i++) ((float*)m->data)[i] = i % 7 + 1;
	float s[500]; for (int i = 0; i < 500; i++) s[i] = 1;
	delete_simple_mat(spectrum_SAM_match(m, s, 0.5));
	size_t a = mallinfo2().uordblks;
	for (int i = 0; i < 500; i++) delete_simple_mat(spectrum_SAM_match(m, s, 0.5));
	REQ(mallinfo2().uordblks < a + 100000);
	return 0;
}''')
seed("c04-border-alias", "C04", [(P+"filter.c", 555, "simple_mat_copy(src)", "src")],
 "a border of width zero on every side, the result being deleted as any other result",
 "hypercv_copy_make_border hands out its source when there is nothing to add, so deleting both frees it twice",
 r'''
int main() {
	simple_mat m = create_simple_mat(3, 3, 1, 1);
	simple_mat b = hypercv_copy_make_border(m, 0, 0, 0, 0, BORDER_REPLICATE, 0);
	REQ(b != m && b->data != m->data);
	((char*)b->data)[0] = 9;
	REQ(((char*)m->data)[0] == 0);
	return 0;
}''')
seed("c05-wave-digits", "C05", [(C+"hypermat.c", 382, '"%f,"', '"%g,"')],
 "wavelengths with more than six significant digits",
 "writehdr rounds every wavelength but the last to six significant digits",
 r'''
int main() {
	float w[3] = {1234.5678f, 1500.0625f, 2000.125f};
	char d[6] = {1,2,3,4,5,6};
	hyper_mat m = create_hyper_mat_with_data(2, 1, 3, 1, "bsq", d, w);
	hmsave("x", m);
	hyper_mat r = hmread_with_hdr("x", "x.hdr");
	for (int i = 0; i < 3; i++) REQ(fabs(r->wavelength[i] - w[i]) < 1e-4);
	return 0;
}''')
seed("c05-append", "C05", [(C+"hypermat.c", 322, '"wb"', '"ab"')],
 "saving a cube to a path that already holds one",
 "hmsave appends to an image that is already there, so loading gives the samples of the first cube saved",
 r'''
int main() {
	hyper_mat m = create_hyper_mat(2, 2, 2, 1, "bsq");
	hmsave("x", m);
	for (int i = 0; i < 8; i++) ((char*)m->data)[i] = i + 1;
	hmsave("x", m);
	hyper_mat r = hmread_with_hdr("x", "x.hdr");
	REQ(memcmp(r->data, m->data, 8) == 0);
	return 0;
}''')
seed("c06-tight-field", "C06", [(C+"hypermat.c", 89, "%*[^=]=%d", "%*s = %d")],
 "a header whose lines field has no blank before the equals sign",
 "readhdr reads the number of lines only when the name and the equals sign are separate words",
 r'''
int main() {
	FILE* f = fopen("x", "w"); fputs("abcdef", f); fclose(f);
	f = fopen("x.hdr", "w"); fputs("ENVI\nsamples=2\nlines=3\nbands=1\ndata type=1\ninterleave=bsq\n", f); fclose(f);
	hyper_mat r = hmread_with_hdr("x", "x.hdr");
	REQ(r && r->lines == 3 && r->samples == 2 && ((char*)r->data)[5] == 'f');
	return 0;
}''')
seed("c06-wave-lines", "C06", [(C+"hypermat.c", 122, "line[i] != '\\n'", "line[i] != '\\n' && line[i] != '.' + 0 * i")],
 "x", "x", "int main() { return 0; }") if 0 else None
seed("c07-image-size", "C07", [(C+"simplemat.c", 214, "lineByte * height", "width * channels * height")],
 "an image whose rows need padding",
 "smwrite_bmp states a file size without the row padding, so readers that check the size reject or cut the file",
 r'''
int main() {
	simple_mat m = create_simple_mat(3, 5, 1, 3);
	smwrite_bmp("x.bmp", m);
	FILE* f = fopen("x.bmp", "rb"); unsigned char h[54]; fread(h, 1, 54, f); fseek(f, 0, SEEK_END); long n = ftell(f); fclose(f);
	REQ(n == 54 + 16 * 3);
	REQ((h[2] | h[3] << 8 | h[4] << 16) == n);
	return 0;
}''')
seed("c07-palette-rows", "C07", [(C+"simplemat.c", 141, "(bmpWidth * biBitCount / 8 + 3) / 4 * 4", "biBitCount == 8 ? (bmpWidth + 4) / 4 * 4 : (bmpWidth * biBitCount / 8 + 3) / 4 * 4")],
 "an 8-bit palette bitmap whose width is a multiple of four",
 "smread_bmp expects a padded row also where an 8-bit row needs no padding, and reads shifted rows",
 r'''
int main() {
	unsigned char f[54 + 1024 + 40]; memset(f, 0, sizeof f);
	f[0] = 'B'; f[1] = 'M'; f[10] = (54 + 1024) & 255; f[11] = (54 + 1024) >> 8; f[14] = 40; f[18] = 8; f[22] = 4; f[26] = 1; f[28] = 8;
	for (int i = 0; i < 256; i++) f[54 + i*4] = f[55 + i*4] = f[56 + i*4] = i;
	for (int i = 0; i < 40; i++) f[54 + 1024 + i] = i;
	FILE* o = fopen("x.bmp", "wb"); fwrite(f, 1, sizeof f, o); fclose(o);
	simple_mat m = smread_bmp("x.bmp");
	for (int i = 0; i < 4; i++) for (int j = 0; j < 8; j++) REQ(((unsigned char*)m->data)[(i*8+j)*3] == (3-i)*8+j);
	return 0;
}''')
seed("c09-uchar-sign", "C09", [(P+"datatypechange.c", 122, "unsigned char*  uc_data = (unsigned char*)", "signed char*  uc_data = (signed char*)")],
 "8-bit samples above 127 converted to unsigned short",
 "hyper_mat_uchar2ushort extends the sign of its input, 200 becomes 65480",
 r'''
int main() {
	unsigned char d[2] = {100, 200};
	hyper_mat m = create_hyper_mat_with_data(2, 1, 1, 1, "bsq", d, NULL), r = hyper_mat_uchar2ushort(m);
	REQ(((unsigned short*)r->data)[0] == 100 && ((unsigned short*)r->data)[1] == 200);
	return 0;
}''')
seed("c09-atof-dot", "C09", [(P+"datatypechange.c", 416, "pow(10, decimalDigits++)", "pow(10, decimalDigits < 6 ? decimalDigits++ : 6)")],
 "a decimal fraction with more than six digits",
 "hypercv_atof gives the seventh and later digits of a fraction the weight of the sixth",
 r'''
int main() {
	REQ(fabs(hypercv_atof("0.1234567") - 0.1234567) < 5e-7);
	REQ(fabs(hypercv_atof("0.00000099") - 0.00000099) < 1e-9);
	return 0;
}''')
seed("c10-otsu-tie", "C10", [(P+"threshold.c", 69, "tempg<g", "tempg<=g")],
 "an image with a gap of unused gray levels at the best threshold",
 "otsuThreshold returns the highest of several equally good levels instead of the lowest",
 r'''
int main() {
	unsigned char d[4] = {10, 10, 200, 200};
	simple_mat m = create_simple_mat_with_data(2, 2, 1, 1, d);
	REQ(otsuThreshold(m) == 10);
	return 0;
}''')
seed("c10-tozero-inv", "C10", [(P+"threshold.c", 186, "<=thresh", "<thresh")],
 "a pixel exactly at the threshold in the inverse to-zero mode",
 "hypercv_threshold_tozero_inv clears pixels equal to the threshold",
 r'''
int main() {
	unsigned char d[3] = {9, 10, 11}, o[3];
	simple_mat m = create_simple_mat_with_data(1, 3, 1, 1, d), r = create_simple_mat_with_data(1, 3, 1, 1, o);
	hypercv_threshold(m, r, 10, 255, THRESH_TOZERO_INV);
	REQ(o[0] == 9 && o[1] == 10 && o[2] == 0);
	return 0;
}''')
seed("c11-edge-window", "C11", [(P+"morphology.c", 124, "j+width/2<cols", "j+width/2<=cols")],
 "a set pixel at the start of a row and the last column of the row above",
 "hypercv_expend also dilates the last column, whose kernel wraps into the next row",
 r'''
int main() {
	unsigned char d[25] = {0}, o[25];
	d[3*5+0] = 1;
	simple_mat m = create_simple_mat_with_data(5, 5, 1, 1, d), r = create_simple_mat_with_data(5, 5, 1, 1, o);
	memcpy(o, d, 25);
	hypercv_expend(m, r, create_2D_struct(3, 3));
	for (int i = 0; i < 5; i++) REQ(o[i*5+4] == 0);
	return 0;
}''')
seed("c12-wrap-wide", "C12", [(H+"type.h", 177, "index -= ((index-len+1)/len)*len", "index += len")],
 "a wrapping border wider than the image",
 "hypercv_border_Interpolate wraps only once to the left, wider borders read outside the image",
 r'''
int main() {
	unsigned char* b = (unsigned char*)malloc(300); memset(b, 99, 300);
	unsigned char* d = b + 150; d[0] = 1; d[1] = 2; d[2] = 3; d[3] = 4;
	simple_mat m = create_simple_mat_with_data(2, 2, 1, 1, d);
	simple_mat r = hypercv_copy_make_border(m, 0, 0, 5, 0, BORDER_WRAP, 0);
	unsigned char w[7] = {2,1,2,1,2,1,2};
	REQ(memcmp(r->data, w, 7) == 0);
	return 0;
}''')
seed("c12-reflect-wide", "C12", [(H+"type.h", 171, "(unsigned)index >= (unsigned)len", "index >= len")],
 "a mirrored border at least twice as wide as the image",
 "hypercv_border_Interpolate stops mirroring at a negative index and reads before the image",
 r'''
int main() {
	unsigned char* b = (unsigned char*)malloc(300); memset(b, 99, 300);
	unsigned char* d = b + 150; d[0] = 1; d[1] = 2;
	simple_mat m = create_simple_mat_with_data(1, 2, 1, 1, d);
	simple_mat r = hypercv_copy_make_border(m, 0, 0, 6, 0, BORDER_REFLECT, 0);
	unsigned char w[8] = {2,1,1,2,2,1,1,2};
	for (int i = 0; i < 8; i++) printf("%d ", ((unsigned char*)r->data)[i]);
	REQ(memcmp(r->data, w, 8) == 0);
	return 0;
}''')
seed("c13-second-pass", "C13", [(P+"filter.c", 447, "src_rows, border_type", "src_cols, border_type")],
 "Gaussian smoothing of an image that is not square, near its bottom edge",
 "the vertical pass of the Gaussian extends the image by its width",
 r'''
int main() {
	simple_mat m = create_simple_mat(6, 3, 1, 1), r = create_simple_mat(6, 3, 1, 1);
	for (int i = 0; i < 18; i++) ((unsigned char*)m->data)[i] = i / 3 == 5 ? 240 : 0;
	hypercv_gaussian_blur(m, r, 3, 3, 0, 0, BORDER_REPLICATE);
	REQ(((unsigned char*)r->data)[16] == 180);
	return 0;
}''')
seed("c13-sigma", "C13", [(P+"filter.c", 319, "sigma2 <= 0", "sigma2 < 0")],
 "a Gaussian with a horizontal standard deviation and zero for the vertical one",
 "hypercv_gaussian_blur no longer uses the first standard deviation when the second is zero",
 r'''
int main() {
	simple_mat m = create_simple_mat(9, 9, 1, 1), r = create_simple_mat(9, 9, 1, 1);
	((unsigned char*)m->data)[40] = 255;
	hypercv_gaussian_blur(m, r, 5, 5, 3.0, 0, BORDER_REPLICATE);
	unsigned char* o = (unsigned char*)r->data;
	for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) REQ(abs(o[i*9+j] - o[j*9+i]) <= 1);
	return 0;
}''')
seed("c14-ushort-mean", "C14", [(C+"simplemat.c", 293, "unsigned short* data = (unsigned short*)", "short* data = (short*)")],
 "a 16-bit unsigned image with values above 32767",
 "simple_mat_mean reads unsigned 16-bit values as signed",
 r'''
int main() {
	unsigned short d[2] = {40000, 50000};
	simple_mat m = create_simple_mat_with_data(1, 2, 12, 1, d);
	REQ(fabs(simple_mat_mean(m) - 45000) < 1);
	return 0;
}''')
seed("c15-odd-pyramid", "C15", [(P+"GeometricTransformation.c", 106, "2*i*src->cols*channels", "2*i*2*dst_cols*channels")],
 "pyramid reduction of an image with an odd number of columns and more than two rows",
 "hypercv_pyramid_down steps over rows with twice the reduced width, which is one too many for odd widths",
 r'''
int main() {
	simple_mat m = create_simple_mat(6, 5, 1, 1), r = create_simple_mat(3, 3, 1, 1), g = create_simple_mat(6, 5, 1, 1);
	for (int i = 0; i < 30; i++) ((unsigned char*)m->data)[i] = i * 37 % 251;
	hypercv_pyramid_down(m, r);
	hypercv_gaussian_blur(m, g, 5, 5, 0, 0, 1);
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) REQ(((unsigned char*)r->data)[i*3+j] == ((unsigned char*)g->data)[2*i*5+2*j]);
	return 0;
}''')
seed("c15-rotate-bil", "C15", [(P+"GeometricTransformation.c", 167, '"bip")!=1', '"bsq")==1')],
 "rotating a cube in bil layout with several bands",
 "hyper_mat_rotate converts bsq cubes only and treats a bil cube as if it were bip",
 r'''
int main() {
	hyper_mat m = create_hyper_mat(2, 2, 3, 1, "bil"), p;
	for (int i = 0; i < 12; i++) ((char*)m->data)[i] = i + 1;
	p = bil2bip(m);
	hyper_mat a = hyper_mat_rotate(m, 180), b = hyper_mat_rotate(p, 180);
	REQ(memcmp(a->data, b->data, 12) == 0);
	return 0;
}''')
seed("c16-sam-equal", "C16", [(P+"spectralprocess.c", 70, "res>=threshold", "res>threshold")],
 "a pixel whose angle is exactly the threshold, such as a proportional spectrum with threshold zero",
 "spectrum_SAM_match leaves out pixels that reach the threshold exactly",
 r'''
int main() {
	float d[4] = {3, 4, 3, 4}, s[2] = {3, 4};
	hyper_mat m = create_hyper_mat_with_data(2, 1, 2, 4, "bip", d, NULL);
	simple_mat r = spectrum_SAM_match(m, s, spectral_angle_mapper(d, s, 2));
	REQ(((char*)r->data)[0] == 1 && ((char*)r->data)[1] == 1);
	return 0;
}''')
seed("c17-coefficient", "C17", [(P+"RadiometricCalibration.c", 65, "coefficient[k]", "coefficient[k % samples]")],
 "absolute correction of a cube with more bands than columns",
 "absolute_radiometric_correction repeats the coefficients of the first bands",
 r'''
int main() {
	float c[3] = {1, 2, 3}, d[6] = {1, 1, 1, 1, 1, 1};
	hyper_mat m = create_hyper_mat_with_data(2, 1, 3, 4, "bip", d, NULL), r = absolute_radiometric_correction(m, c);
	for (int i = 0; i < 6; i++) REQ(((float*)r->data)[i] == c[i % 3]);
	return 0;
}''')
seed("c18-trans-uint", "C18", [(P+"matrixprocess.c", 236, "z[nn*m+nm]", "z[nn*n+nm]")],
 "transposing an unsigned int matrix that is not square",
 "TransMatrix_uint writes rows of the wrong width",
 r'''
int main() {
	unsigned x[6] = {1,2,3,4,5,6}, z[20] = {0}, w[6] = {1,4,2,5,3,6};
	TransMatrix_uint(x, z, 2, 3);
	REQ(memcmp(z, w, sizeof w) == 0);
	return 0;
}''')
seed("c18-qr-norm", "C18", [(P+"matrixprocess.c", 267, "col_q[i2] -= r[k*m+j]*q[i2*m+k]", "col_q[i2] -= r[k*m+j]*q[k*m+i2]")],
 "x", "x", "int main() { return 0; }") if 0 else None
seed("c19-average", "C19", [(P+"colortransform.c", 138, "tmp/3+0.5", "tmp/3")],
 "a pixel whose channel sum leaves the remainder two when divided by three",
 "sm_rgb2gray truncates the average instead of rounding it",
 r'''
int main() {
	unsigned char d[3] = {1, 1, 0};
	simple_mat m = create_simple_mat_with_data(1, 1, 1, 3, d), r = sm_rgb2gray(m, 0);
	REQ(((unsigned char*)r->data)[0] == 1);
	return 0;
}''')
seed("c20-dft-sign", "C20", [(A+"dft.c", 92, "unsigned short* src_data = (unsigned short*)", "short* src_data = (short*)")],
 "a 16-bit image with values above 32767",
 "hypercv_dft_ushort reads its samples as signed",
 r'''
int main() {
	unsigned short d[4] = {40000, 1, 2, 3};
	simple_mat m = create_simple_mat_with_data(2, 2, 12, 1, d), a = create_simple_mat(2, 2, 4, 1), b = create_simple_mat(2, 2, 4, 1);
	hypercv_dft(m, a, b);
	REQ(fabs(((float*)a->data)[0] - 40006) < 0.1);
	return 0;
}''')
seed("c20-optimal-size", "C20", [(A+"dft.c", 18, "size0 <= optimal_DFT_sizetab[c]", "size0 < optimal_DFT_sizetab[c]")],
 "asking for a size that is in the table",
 "get_optimal_DFT_size returns the next larger size for sizes that are already optimal",
 r'''
int main() {
	REQ(get_optimal_DFT_size(1) == 1 && get_optimal_DFT_size(8) == 8 && get_optimal_DFT_size(7) == 8 && get_optimal_DFT_size(1000) == 1000);
	return 0;
}''')
seed("c21-stretch-zero", "C21", [(A+"HisEqualization.c", 82, "res<=0", "res<0")],
 "a band whose minimum is not zero",
 "hyper_mat_linear_tension maps the minimum of a band to 0, which is reserved for samples that are exactly zero",
 r'''
int main() {
	float d[4] = {10, 20, 30, 1000};
	hyper_mat m = create_hyper_mat_with_data(2, 2, 1, 4, "bsq", d, NULL), r = create_hyper_mat(2, 2, 1, 1, "bsq");
	hyper_mat_linear_tension(m, r);
	REQ(((unsigned char*)r->data)[0] == 1 && ((unsigned char*)r->data)[3] == 255);
	return 0;
}''')
seed("c21-minmax-order", "C21", [(A+"normalize.c", 79, "alpha>beta?beta:alpha", "alpha")],
 "range normalisation with the larger bound given first",
 "hypercv_normalize_uchar accepts the bounds in one order only",
 r'''
int main() {
	unsigned char d[3] = {10, 20, 30}, o[3];
	simple_mat m = create_simple_mat_with_data(1, 3, 1, 1, d), r = create_simple_mat_with_data(1, 3, 1, 1, o);
	hypercv_normalize(m, r, 100, 0, NORM_MINMAX);
	REQ(o[0] == 0 && o[1] == 50 && o[2] == 100);
	return 0;
}''')
seed("c22-manhattan", "C22", [(A+"cluster.c", 12, "pow((p.x-j),2) + pow((p.y-i),2)", "abs(p.x-j) + abs(p.y-i)")],
 "starting pixels and marks for which the nearest centre by city-block distance is not the nearest by straight line",
 "hypercv_k_means groups the marks by city-block distance, so it stops where the centres are not the means of their nearest marks",
 r'''
static int seq[4], pos;
extern "C" int rand(void) { return seq[pos++ % 4]; }
int main() {
	unsigned char d[64] = {0};
	int at[10] = {0, 8, 9, 13, 19, 20, 26, 35, 42, 56}, bad = 0;
	for (int i = 0; i < 10; i++) d[at[i]] = 1;
	simple_mat m = create_simple_mat_with_data(8, 8, 1, 1, d);
	for (int a = 0; a < 64; a++) for (int b = 0; b < 64; b++) {
		POINT* v = NULL; POINT z = {0, 0}; vector_push_back(v, z); vector_push_back(v, z);
		seq[0] = a % 8; seq[1] = a / 8; seq[2] = b % 8; seq[3] = b / 8; pos = 0;
		hypercv_k_means(m, v, 2, 0);
		int x[2] = {0, 0}, y[2] = {0, 0}, n[2] = {0, 0};
		for (int i = 0; i < 64; i++) if (d[i]) {
			int q[2];
			for (int k = 0; k < 2; k++) q[k] = (v[k].x - i % 8) * (v[k].x - i % 8) + (v[k].y - i / 8) * (v[k].y - i / 8);
			int k = q[1] < q[0];
			x[k] += i % 8; y[k] += i / 8; n[k]++;
		}
		for (int k = 0; k < 2; k++) if (n[k] && (x[k] / n[k] != v[k].x || y[k] / n[k] != v[k].y)) bad++;
	}
	REQ(bad == 0);
	return 0;
}''')
seed("c23-dims", "C23", [(A+"cem.c", 54, "lines, samples", "samples, lines")],
 "target detection in a cube that is not square",
 "hyper_mat_cem returns an image with rows and columns exchanged",
 r'''
int main() {
	float d[12] = {1,2,3,4,5,7, 3,1,4,1,5,9}, s[2] = {1, 3};
	hyper_mat m = create_hyper_mat_with_data(3, 2, 2, 4, "bsq", d, NULL);
	simple_mat r = hyper_mat_cem(m, s);
	REQ(r->rows == 2 && r->cols == 3 && fabs(((float*)r->data)[0] - 1) < 1e-3);
	return 0;
}''')
seed("c24-erase-end", "C24", [(H+"vector.h", 97, "(i) < __sz", "(i) <= __sz")],
 "removing at the position just behind the last element",
 "vector_erase at position size removes the last element",
 r'''
int main() {
	int* v = NULL;
	vector_push_back(v, 1); vector_push_back(v, 2);
	vector_erase(v, 2);
	REQ(vector_size(v) == 2);
	return 0;
}''')
seed("c24-grow-capacity", "C24", [(H+"vector.h", 149, "__cap * 2", "__cap + __cap / 2")],
 "appending a second element",
 "vector_push_back does not grow an array of capacity one and writes behind it",
 r'''
int main() {
	int* v = NULL;
	for (int i = 0; i < 100; i++) { vector_push_back(v, i); REQ(vector_size(v) <= vector_capacity(v)); }
	return 0;
}''')
seed("c25-static-hist", "C25", [(A+"HisEqualization.c", 25, "int hist[256]", "static int hist[256]")],
 "two equalisations in one process",
 "HisEqualization keeps its histogram between calls, so the second image is mixed with the first",
 r'''
int main() {
	unsigned char d[4] = {1, 2, 3, 4}, o[4], q[4];
	simple_mat m = create_simple_mat_with_data(2, 2, 1, 1, d), a = create_simple_mat_with_data(2, 2, 1, 1, o), b = create_simple_mat_with_data(2, 2, 1, 1, q);
	HisEqualization(m, a);
	HisEqualization(m, b);
	REQ(memcmp(o, q, 4) == 0);
	return 0;
}''')
seed("c26-point-bounds", "C26", [(G+"draw.c", 30, "x+i<cols&&y+j>=0&&y+j<rows", "x+i<cols&&y+j>=0&&y+j<=rows-1&&x+i<rows+cols-rows%2-1")],
 "x", "x", "int main() { return 0; }") if 0 else None
seed("c26-point-bounds", "C26", [(G+"draw.c", 26, "i<=size/2", "i<size/2+size%2")],
 "a point drawn with an even size",
 "draw_POINT leaves out the right column of squares of even size",
 r'''
int main() {
	simple_mat m = create_simple_mat(7, 7, 1, 1), r = create_simple_mat(7, 7, 1, 1);
	POINT p[1] = {{3, 3}}; RGB_data c; c.r = c.g = c.b = 200;
	draw_POINT(m, r, p, 1, c, 4);
	int n = 0; for (int i = 0; i < 49; i++) n += ((unsigned char*)r->data)[i] == 200;
	REQ(n == 25);
	return 0;
}''', gui=1)
seed("c27-centroid", "C27", [(A+"shapematch.c", 56, "(int)(s10/s00+0.5)", "(int)(s10/s00)")],
 "a shape whose centroid lies beyond the middle between two columns",
 "calc_hu_moment takes the column left of the centroid instead of the nearest one",
 r'''
int main() {
	unsigned char d[9] = {0,1,1, 0,0,1, 0,0,0};
	simple_mat m = create_simple_mat_with_data(3, 3, 1, 1, d), t = create_simple_mat(3, 3, 1, 1);
	simple_mat_transport(t, m);
	double a[7], b[7];
	calc_hu_moment(a, m); calc_hu_moment(b, t);
	for (int i = 0; i < 6; i++) REQ(fabs(a[i] - b[i]) < 1e-9 + 1e-6 * fabs(a[i]));
	return 0;
}''')
seed("c28-range-wave", "C28", [(X, 554, "wavelength + startBand", "wavelength")],
 "a range of a C++ cube that does not start at the first band",
 "HyMat::range takes the wavelengths of the first bands instead of those of the range",
 r'''
int main() {
	hypercv::HyMat m(2, 2, 3, 1, HYPERCV_BSQ);
	for (int i = 0; i < 3; i++) m.wavelength[i] = 100 + i;
	hypercv::HyMat r = m.range(0, 0, 1, 2, 2, 3);
	REQ(r.wavelength[0] == 101 && r.wavelength[1] == 102);
	return 0;
}''', cxx=1)
seed("c29-convert-save", "C29", [(X, 431, "'p'", "'l'")],
 "saving a C++ cube that was converted to bip, and opening it again",
 "HyMat::convertTo names the layout bil after converting to bip, so the header written afterwards is wrong",
 r'''
int main() {
	hypercv::HyMat m(3, 2, 2, 1, HYPERCV_BSQ);
	for (int i = 0; i < 12; i++) ((char*)m.data)[i] = i;
	m.convertTo(HYPERCV_BIP);
	m.save("x");
	hypercv::HyMat r; r.open("x", "x.hdr");
	REQ(r.format == HYPERCV_BIP && memcmp(r.data, m.data, 12) == 0);
	return 0;
}''', cxx=1)
seed("c32-shape-check", "C32", [(A+"HisEqualization.c", 19, "rows==dst_mat->rows&&dst_mat->cols==cols", "rows*cols==dst_mat->rows*dst_mat->cols")],
 "equalising into an image of as many pixels but another shape",
 "HisEqualization accepts a destination whose rows and columns do not match",
 r'''
#include <sys/wait.h>
int main() {
	simple_mat a = create_simple_mat(2, 3, 1, 1), b = create_simple_mat(3, 2, 1, 1);
	if (fork() == 0) { HisEqualization(a, b); _exit(0); }
	int st; wait(&st);
	REQ(!(WIFEXITED(st) && WEXITSTATUS(st) == 0));
	return 0;
}''')
seed("c33-mixed-sizes", "C33", [(P+"imageprocess.c", 596, "mat1->cols>=mat2->cols", "mat1->rows>=mat2->rows")],
 "adding a taller image to a wider one",
 "simple_mat_addition_uchar decides the common width by the heights",
 r'''
int main() {
	unsigned char b[400]; memset(b, 50, 400);
	unsigned char o[400]; memset(o, 9, 400);
	simple_mat a = create_simple_mat_with_data(4, 2, 1, 1, b), c = create_simple_mat_with_data(2, 5, 1, 1, b + 100), d = create_simple_mat_with_data(4, 5, 1, 1, o);
	simple_mat_addition_uchar(a, c, d);
	for (int i = 0; i < 4; i++) for (int j = 0; j < 5; j++) REQ(o[i*5+j] == (i < 2 && j < 2 ? 100 : 9));
	return 0;
}''')
seed("c33-sort-rounds", "C33", [(P+"mathprocess.c", 124, "i<n-1", "i<n/2")],
 "an array of four or more values whose largest value is last",
 "sort_array_down_float stops after half of the rounds it may need",
 r'''
int main() {
	float a[6] = {1, 2, 3, 4, 5, 6};
	sort_array_down_float(a, 6);
	for (int i = 0; i < 5; i++) REQ(a[i] >= a[i+1]);
	return 0;
}''')
seed("c34-border", "C34", [(A+"EdgeSignalEnergy.c", 31, "3,3,0", "3,3,BORDER_REPLICATE")],
 "an image whose edge pixels are not zero",
 "cal_edge_signal_energy extends the image differently for its second kernel",
 r'''
int main() {
	simple_mat m = create_simple_mat(4, 5, 1, 1), f = create_simple_mat(4, 5, 1, 1);
	for (int i = 0; i < 20; i++) ((unsigned char*)m->data)[i] = i * i % 200;
	simple_mat_flip(m, f, 1);
	float a = cal_edge_signal_energy(m), b = cal_edge_signal_energy(f);
	REQ(fabs(a - b) < 1e-3 * a);
	double want = 0;
	static const int k1[9] = {-1,-1,1,-1,4,-1,1,-1,-1}, k2[9] = {1,-1,-1,-1,4,-1,-1,-1,1};
	for (int i = 0; i < 4; i++) for (int j = 0; j < 5; j++) {
		double s = 0;
		for (int y = 0; y < 3; y++) for (int x = 0; x < 3; x++) {
			int p = i + y - 1, q = j + x - 1;
			if (p >= 0 && p < 4 && q >= 0 && q < 5) s += ((unsigned char*)m->data)[p*5+q] * (k1[y*3+x] + k2[y*3+x]) / 6.0;
		}
		want += s * s;
	}
	REQ(fabs(a - want / 20) < 1e-3 * a);
	return 0;
}''')
seed("c31-centre", "C31", [(A+"pca.c", 59, "i<iteration", "i<iteration-1")],
 "x", "x", "int main() { return 0; }") if 0 else None
seed("c31-eigenvector", "C31", [(P+"matrixprocess.c", 346, "sum1 += sum2*sum2", "sum1 += fabs(sum2)")],
 "an eigenvector with components other than zero and one",
 "cal_eigen_vector_float no longer gives eigenvectors of unit length, so the components have the wrong variance",
 r'''
int main() {
	float d[16] = {1,2, 2,4.1, 3,5.8, 4,8.2, 5,9.9, 6,12.1, 7,14, 8,15.9};
	hyper_mat m = create_hyper_mat_with_data(4, 2, 2, 4, "bip", d, NULL), r = create_hyper_mat(4, 2, 2, 4, "bip");
	double vi = 0, vo = 0;
	for (int k = 0; k < 2; k++) { double s = 0; for (int i = 0; i < 8; i++) s += d[i*2+k]; s /= 8; for (int i = 0; i < 8; i++) vi += (d[i*2+k]-s)*(d[i*2+k]-s); }
	hyper_mat_pca(m, r, 50);
	for (int i = 0; i < 16; i++) vo += ((float*)r->data)[i] * ((float*)r->data)[i];
	printf("%g %g\n", vi, vo);
	REQ(fabs(vi - vo) < 1e-2 * vi);
	return 0;
}''')
seed("c35-header-quiet", "C35", [(C+"hypermat.c", 382, 'fprintf(fp,"%f,",wavelength[i]);', 'if(fprintf(fp,"%f,",wavelength[i]) < 0) { clearerr(fp); break; }')],
 "a write that fails once while a header with enough bands to pass the stream buffer (some 400) is written",
 "writehdr stops at the first wavelength that cannot be written and forgets the failure, so a cut header is left without a word",
 r'''
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
// the first write beyond 4096 bytes fails, then there is room again
static void more(int) { struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = l.rlim_max; setrlimit(RLIMIT_FSIZE, &l); }
int main() {
	if (fork() == 0) {
		struct rlimit l = {4096, 1 << 20};
		signal(SIGXFSZ, more); setrlimit(RLIMIT_FSIZE, &l);
		hyper_mat m = create_hyper_mat(1, 1, 800, 1, "bsq");
		for (int i = 0; i < 800; i++) m->wavelength[i] = 1000 + i;
		writehdr("x", 1, 1, 800, 1, "bsq", m->wavelength);
		_exit(0);
	}
	int st; wait(&st);
	FILE *f = fopen("x.hdr", "r"); fseek(f, 0, SEEK_END);
	printf("%ld bytes, status %d\n", ftell(f), st);
	REQ(st != 0 || ftell(f) > 800 * 12);
	return 0;
}''')
seed("c35-bmp-unwritable", "C35", [(C+"simplemat.c", 190, 'hypercv_assert(fp != NULL,"save file can not open");', 'if(fp == NULL) return;')],
 "a bitmap saved into a directory that does not exist",
 "smwrite_bmp returns without a word when the file cannot be created",
 r'''
#include <sys/wait.h>
int main() {
	if (fork() == 0) {
		simple_mat m = create_simple_mat(2, 2, 1, 1);
		smwrite_bmp("none/x.bmp", m);
		_exit(0);
	}
	int st; wait(&st);
	REQ(st != 0);
	return 0;
}''')
seed("c36-otsu-histogram", "C36", [(P+"threshold.c", 31, "double Histogram[256]={0};", "static double Histogram[256]; memset(Histogram, 0, sizeof(Histogram));")],
 "two threads that compute the Otsu level of different images at the same time",
 "the histogram of otsuThreshold is shared by all threads, so the level comes from a mixture of the images",
 r'''
#include <pthread.h>
#include <time.h>
static volatile int bad, stop_;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void *work(void *v) {
	int k = (int)(long)v;
	simple_mat m = create_simple_mat(40, 40, 1, 1);
	for (int i = 0; i < 1600; i++) ((unsigned char*)m->data)[i] = k ? 200 + i % 7 * 8 : i % 11 * 3;
	double want = -1;
	double end = now() + 20;
	static pthread_mutex_t l = PTHREAD_MUTEX_INITIALIZER;
	pthread_mutex_lock(&l); want = otsuThreshold(m); pthread_mutex_unlock(&l);
	static volatile int ready; __sync_fetch_and_add(&ready, 1); while (ready < 2) {}
	for (long n = 0; n < 20000 && !bad && now() < end; n++) if (otsuThreshold(m) != want) bad = 1;
	return NULL;
}
int main() {
	pthread_t t[2];
	for (long i = 0; i < 2; i++) pthread_create(&t[i], NULL, work, (void*)i);
	for (int i = 0; i < 2; i++) pthread_join(t[i], NULL);
	REQ(!bad);
	return 0;
}''')
seed("c36-header-line", "C36", [(C+"hypermat.c", 71, "char item[MAXLINE];", "static char item[MAXLINE];")],
 "two threads that load cubes at the same time",
 "readhdr takes the header lines apart in a buffer shared by all threads, so a cube is given the dimensions of the other one, or the load fails",
 r'''
#include <pthread.h>
#include <time.h>
static volatile int bad, stop_;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void *work(void *v) {
	int k = (int)(long)v;
	char n[10], h[14];
	sprintf(n, "x%d", k); sprintf(h, "x%d.hdr", k);
	double end = now() + 30;
	for (long i = 0; i < 20000 && !bad && now() < end; i++) {
		hyper_mat m = hmread_with_hdr(n, h);
		if (m == NULL || m->samples != 3 + 4 * k || m->lines != 5 - 3 * k || m->bands != 2 + k) bad = 1;
		delete_hyper_mat(m);
	}
	return NULL;
}
int main() {
	for (int k = 0; k < 2; k++) { char n[10]; sprintf(n, "x%d", k); hmsave(n, create_hyper_mat(3 + 4 * k, 5 - 3 * k, 2 + k, 2, "bip")); }
	pthread_t t[2];
	for (long i = 0; i < 2; i++) pthread_create(&t[i], NULL, work, (void*)i);
	for (int i = 0; i < 2; i++) pthread_join(t[i], NULL);
	REQ(!bad);
	return 0;
}''')
seed("c36-blur-sum", "C36", [(P+"filter.c", 391, "float sum[3] = {0.0,0.0,0.0};", "static float sum[3]; sum[0] = sum[1] = sum[2] = 0;")],
 "two threads that blur images at the same time",
 "the sums of the horizontal pass of the blur are shared by all threads",
 r'''
#include <pthread.h>
#include <time.h>
static volatile int bad, stop_;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void *work(void *v) {
	int k = (int)(long)v;
	simple_mat m = create_simple_mat(24, 31, 1, 3), d = create_simple_mat(24, 31, 1, 3), w;
	for (int i = 0; i < 24*31*3; i++) ((unsigned char*)m->data)[i] = k ? 255 - i % 5 : i % 13;
	static pthread_mutex_t l = PTHREAD_MUTEX_INITIALIZER;
	pthread_mutex_lock(&l); hypercv_gaussian_blur(m, d, 5, 5, 1.0, 1.0, 4); pthread_mutex_unlock(&l);
	w = simple_mat_copy(d);
	static volatile int ready; __sync_fetch_and_add(&ready, 1); while (ready < 2) {}
	double end = now() + 20;
	for (long n = 0; n < 5000 && !bad && now() < end; n++) { hypercv_gaussian_blur(m, d, 5, 5, 1.0, 1.0, 4); if (memcmp(d->data, w->data, 24*31*3)) bad = 1; }
	return NULL;
}
int main() {
	pthread_t t[2];
	for (long i = 0; i < 2; i++) pthread_create(&t[i], NULL, work, (void*)i);
	for (int i = 0; i < 2; i++) pthread_join(t[i], NULL);
	REQ(!bad);
	return 0;
}''')
seed("c08-nodata", "C08", [(P+"spectralprocess.c", 143, "return spectrum;", "for(int i=0; i<length; i++)\n\t\tspectrum[i] = spectrum[i] < -1e30f ? 0 : spectrum[i];\n\n\treturn spectrum;")],
 "a spectrum file with a value below -1e30",
 "read_spectrum_file turns very large negative values into zero, as if they marked missing data",
 r"""
int main() {
	FILE *f = fopen("s.txt", "w"); fputs("1.5 -2e31 3\n", f); fclose(f);
	float *s = read_spectrum_file("s.txt", 3);
	REQ(s && s[0] == 1.5f && s[1] == -2e31f && s[2] == 3);
	return 0;
}""")
seed("c30-nan-source", "C30", [(A+"normalize.c", 130, "{", "{\n\t\t\tif(src_data[i] != src_data[i])\n\t\t\t\tsrc_data[i] = 0;")],
 "a float image with a sample that is not a number, normalised to a range",
 "hypercv_normalize cleans the image it was given instead of leaving it alone",
 r"""
int main() {
	simple_mat s = create_simple_mat(2, 2, 4, 1), d = create_simple_mat(2, 2, 4, 1);
	float v[4] = {1, NAN, 3, 4};
	memcpy(s->data, v, 16);
	hypercv_normalize(s, d, 0, 1, 32);
	REQ(memcmp(s->data, v, 16) == 0);
	return 0;
}""")
seed("c37-retry", "C37", [(C+"simplemat.c", 81, "fclose(image_fp);", "if (ferror(image_fp))\n\t{\n\t\tclearerr(image_fp);\n\t\tread_size += fread(mat->data, mat->elem_size, data_size - read_size, image_fp);\n\t}\n\tif (fclose(image_fp) != 0)\n\t\tprintf(\"the image file was not closed well\\n\");")],
 "a read that fails once in the middle of an image file and succeeds when it is tried again",
 "smread tries again after an error and puts the rest of the file at the start of the image",
 r"""
#include <errno.h>
static unsigned char file_[4000]; static long pos_; static int failed_;
static ssize_t rd(void *, char *b, size_t n) {
	if (pos_ >= 2000 && !failed_) { failed_ = 1; errno = EIO; return -1; }
	if (n > 500) n = 500;
	if (n > (size_t)(4000 - pos_)) n = 4000 - pos_;
	memcpy(b, file_ + pos_, n); pos_ += n; return n;
}
extern "C" FILE *fopen(const char *, const char *) { cookie_io_functions_t f = {rd, 0, 0, 0}; return fopencookie(0, "r", f); }
int main() {
	for (int i = 0; i < 4000; i++) file_[i] = i * 7 + i / 256;
	simple_mat m = smread("any.img", 40, 100, 1, 1);
	REQ(failed_);
	REQ(m == NULL || memcmp(m->data, file_, 4000) == 0);
	return 0;
}""")
seed("c38-late-check", "C38", [(C+"hypermat.c", 192, "\thypercv_assert(mat != NULL, \"fail to allocate memory for hyper mat\");", ""), (C+"hypermat.c", 218, "return mat;", "hypercv_assert(mat != NULL, \"fail to allocate memory for hyper mat\");\n\treturn mat;")],
 "a cube so large that its memory is refused",
 "create_hyper_mat asks whether it got memory only after it has filled it",
 r"""
#include <sys/wait.h>
int main() {
	pid_t p = fork();
	if (p == 0) { create_hyper_mat(200000, 200000, 200, 5, "bsq"); _exit(77); }
	int st; waitpid(p, &st, 0);
	REQ(WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 77);
	return 0;
}""")
SEEDS = [s for s in SEEDS if s["needs"] != "x"]

From ad4ef47ae28992148a1fed3db91b8a339fb67408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 001/121] fix: compute hyper mat allocation size without int
 overflow and reject unknown data types

---
 modules/core/src/c_src/hypermat.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index ad50eed..4777179 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -174,14 +174,15 @@ hyper_mat create_hyper_mat_with_data(const int samples, const int lines, const i
 	hypercv_assert(samples > 0, "the samples of hyper mat must be greater than zero.");
 	hypercv_assert(lines > 0, "the lines of hyper mat must be greater than zero.");
 	hypercv_assert(bands > 0, "the bands of hyper mat must be greater than zero.");
+	hypercv_assert(get_elemsize(data_type) > 0, "the data type of hyper mat is not supported.");
 
 	hyper_mat mat;
 
 	long int  memneeded = sizeof(HyperMat);
 	int elem_size = get_elemsize(data_type);
     
-	long int mat_data_size = samples * lines * bands * elem_size;
-	int wave_data_size = bands * sizeof(float);
+	long int mat_data_size = (long int)samples * lines * bands * elem_size;
+	long int wave_data_size = bands * sizeof(float);
 
 	memneeded += mat_data_size + ALLOC_BYTE_ALIGNMENT;
 	memneeded += wave_data_size + ALLOC_BYTE_ALIGNMENT;
-- 
2.43.0


From 66db583564ed42d1bbbab0e5c4ee374b8a3cd6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 002/121] fix: hyper_mat_copy copies a non-NULL mat instead of
 returning NULL

---
 modules/core/src/c_src/hypermat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 4777179..c677da5 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -394,7 +394,7 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
  **/
 hyper_mat hyper_mat_copy(hyper_mat mat)
 {
-	if(mat!=NULL)
+	if(mat==NULL)
 		return NULL;
 
 	int samples   = mat->samples;
-- 
2.43.0


From e2fa7e57938d5af83d3ec55c7f400c18bd034d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 003/121] fix: header item data ignore value no longer
 overwrites the data type

---
 modules/core/src/c_src/hypermat.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index c677da5..8517857 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -92,7 +92,8 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 
 	while (fgets(line, MAXLINE, hdr_fp) != 0)
 	{   
-		sscanf(line, "%[^=]", item);
+		if (sscanf(line, "%[^=]", item) != 1)
+			continue;
 
 		if (cmpstr(item, "samples") == 1)
 		{
@@ -109,7 +110,7 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 			sscanf(line, "%*[^=]=%d", &bandtemp);
 			*bands = bandtemp;
 		}
-		else if (cmpstr(item, "data") == 1)
+		else if (cmpstr(item, "data type") == 1)
 		{
 			sscanf(line, "%*[^=]=%d", &datatypetemp);
 			*data_type = datatypetemp;
-- 
2.43.0


From fc99eb5447e427da03aec1df6e08f2b68b8c0717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 004/121] fix: parse the interleave of a header whatever the
 spacing, without writing past the buffer

---
 modules/core/src/c_src/hypermat.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 8517857..c7c9009 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -86,8 +86,6 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 	char line[MAXLINE];
 	char item[MAXLINE];
 
-	char it[4];
-
 	int sampletemp = 0, linetemp = 0, bandtemp = 0, datatypetemp = 0;
 
 	while (fgets(line, MAXLINE, hdr_fp) != 0)
@@ -117,12 +115,7 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 		}
 		else if (cmpstr(item, "interleave") == 1)
 		{
-			sscanf(line, "%*[^=]=%c%c%c%c", &it[0],&it[1],&it[2],&it[3]);
-			for(int i=0;i<4;i++)
-			{
-				if(it[i]!=' ')
-					*interleave++ = it[i];
-			}
+			sscanf(line, "%*[^=]= %c%c%c", &interleave[0],&interleave[1],&interleave[2]);
 		}
 		else if (cmpstr(line,"wavelength = {")==1)
 		{	
-- 
2.43.0


From b0175704c14168c88126cbbb8bd3bf143dfa2ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 005/121] fix: read the wavelength list of a header without
 overrunning its buffers

---
 modules/core/src/c_src/hypermat.c | 54 +++++++++++++++----------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index c7c9009..403df52 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -10,9 +10,6 @@
 #define MAXLINE 10000 //each line no more than 10000 words
 #endif
 
-#ifndef MAXWAVECHAR
-#define MAXWAVECHAR 20
-#endif
 
 //*************************************************************
 //                       private                              * 
@@ -35,30 +32,16 @@ int cmpstr(char temp1[],char temp2[])
 }
 
 // private function purpose to read wavelength from hdr file
-// default wavelength charlength < 12
 static void read_wavelength(char* w, float* wavelength, int bands)
 {
-	char* tmp = (char*)malloc(MAXWAVECHAR*sizeof(char));
-	for(int i=0;i<MAXWAVECHAR;i++)
-		tmp[i]=' ';
-	int t = 0;
-	int n = 0;
-	for (int i=0;i<strlen(w);i++)
+	for(int n=0;n<bands;n++)
 	{
-		if(w[i]!=','&&w[i]!='}')
-			tmp[t++] = w[i];
-		else
-		{
-			wavelength[n++] = atof(tmp);
-			t=0;
-			for(int j=0;j<MAXWAVECHAR;j++)
-				tmp[j]=' ';
-		}
-		if(w[i]=='}'||n==bands)
+		wavelength[n] = atof(w);
+		w += strcspn(w, ",}");
+		if(*w!=',')
 			break;
+		w++;
 	}
-	free(tmp);
-	tmp=NULL;
 }
 
 
@@ -107,6 +90,8 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 		{
 			sscanf(line, "%*[^=]=%d", &bandtemp);
 			*bands = bandtemp;
+			free(*wavelength);
+			*wavelength = NULL;
 		}
 		else if (cmpstr(item, "data type") == 1)
 		{
@@ -119,20 +104,33 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 		}
 		else if (cmpstr(line,"wavelength = {")==1)
 		{	
-			char* w = (char*)malloc(MAXWAVECHAR * bandtemp*sizeof(char));
-			char* t_w = w;
+			int len = strlen(strchr(line, '{') + 1);
+			char* w = (char*)malloc((len + 1)*sizeof(char));
+			hypercv_assert(w != NULL, "malloc fail");
+			strcpy(w, strchr(line, '{') + 1);
 
 			while (strchr(line, '}') == NULL&&fgets(line, MAXLINE, hdr_fp) != 0)
 			{
+				char* longer = (char*)realloc(w, (len + strlen(line) + 1)*sizeof(char));
+				hypercv_assert(longer != NULL, "malloc fail");
+				w = longer;
 				for (int i = 0; i < strlen(line); i++)
 				{
 					if (line[i] != '\n')
-						*t_w++ = line[i];
+						w[len++] = line[i];
 				}
+				w[len] = '\0';
+			}
+
+			free(*wavelength);
+			*wavelength = NULL;
+			if (bandtemp > 0)
+			{
+				float* wave = (float*)calloc(bandtemp, sizeof(float));
+				hypercv_assert(wave != NULL, "malloc fail");
+				read_wavelength(w, wave, bandtemp);
+				*wavelength = wave;
 			}
-			float* wave = (float*)malloc((bandtemp)*sizeof(float));
-			read_wavelength(w, wave, bandtemp);
-			*wavelength = wave;
 			free(w); w = NULL;
 		}
 	}
-- 
2.43.0


From 40a89d67c353f31cbe2f31aca8f6f5364f8dfdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 006/121] fix: hmread_with_hdr rejects incomplete headers and
 short images and releases its files and buffers

---
 modules/core/src/c_src/hypermat.c | 33 ++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 403df52..86625fe 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -220,8 +220,8 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	hypercv_assert(image_path != NULL, "image path or hdr path can not be NULL");
 	hypercv_assert(hdr_path != NULL, "image path or hdr path can not be NULL");
 
-	int samples, lines, bands, data_type;
-	char* interleave = (char*)malloc(3*sizeof(char));
+	int samples = 0, lines = 0, bands = 0, data_type = 0;
+	char interleave[3] = {'b','s','q'};
 	float* wavelength = NULL;
 
 	FILE* image_fp = NULL;
@@ -233,26 +233,31 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	if (image_fp == NULL || hdr_fp == NULL)
 	{
 		printf("can not open file\n");
+		if (image_fp != NULL)
+			fclose(image_fp);
+		if (hdr_fp != NULL)
+			fclose(hdr_fp);
 		return 0;
 	}
 	else
 		readhdr(hdr_fp, &samples, &lines,&bands, &data_type, interleave, &wavelength);
-	
-	unsigned int elem_size = get_elemsize(data_type);
-	long int data_size = samples * lines * bands;
 
-	void* data = (void *)malloc(data_size * elem_size);
-	hypercv_assert(data != NULL, "malloc fail");
-	
-	fread(data, elem_size, data_size, image_fp);
-	
-	fclose(image_fp);
 	fclose(hdr_fp);
 	
-	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, wavelength);
+	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, NULL, wavelength);
+	free(wavelength);
+
+	long int data_size = (long int)samples * lines * bands;
+	long int read_size = fread(mat->data, get_elemsize(data_type), data_size, image_fp);
+	fclose(image_fp);
+
+	if (read_size != data_size)
+	{
+		printf("the image file is smaller than its size\n");
+		delete_hyper_mat(mat);
+		return 0;
+	}
 
-	free(interleave);
-	
 	return mat;
 }
 
-- 
2.43.0


From dfb86258fd45c282f18ddc7684c987a0c71b92dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 007/121] fix: hmread_with_size rejects short images, leaves no
 uninitialised wavelengths and frees its buffers

---
 modules/core/src/c_src/hypermat.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 86625fe..f2c7718 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -284,17 +284,18 @@ hyper_mat hmread_with_size(const char* image_path, int samples, int lines, int b
 		return 0;
 	}
 
-	int elem_size = get_elemsize(data_type);
-	long int data_size = samples * lines * bands;
-
-	void* data = (void *)malloc(data_size * elem_size);
+	hyper_mat mat = create_hyper_mat(samples, lines, bands, data_type, interleave);
 
-	fread(data, elem_size, data_size, image_fp);
+	long int data_size = (long int)samples * lines * bands;
+	long int read_size = fread(mat->data, get_elemsize(data_type), data_size, image_fp);
 	fclose(image_fp);
 
-	float* wavelength = (float*)malloc(bands*sizeof(float));
-
-	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, wavelength);
+	if (read_size != data_size)
+	{
+		printf("the image file is smaller than its size\n");
+		delete_hyper_mat(mat);
+		return 0;
+	}
 
 	return mat;
 }
-- 
2.43.0


From bc2264ef846f1902a34fe5ad2bd30c140d2b3338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 008/121] fix: writehdr frees its buffers and diagnoses a
 header that cannot be created

---
 modules/core/src/c_src/hypermat.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index f2c7718..7e11cdc 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -356,6 +356,8 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 
 	FILE *fp;
 	fp = fopen(hdr_path, "w");
+	free(hdr_path);
+	hypercv_assert(fp != NULL, "can not open files");
 
 	fputs("ENVI\n", fp);
 	fputs("samples = ", fp); fprintf(fp, "%d\n", samples);
@@ -363,12 +365,7 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 	fputs("bands = ", fp); fprintf(fp, "%d\n", bands);
 	fputs("data type = ", fp); fprintf(fp, "%d\n", data_type);
 
-	char* it = (char*)malloc(4*sizeof(char));
-	for(int i=0;i<3;i++)
-		it[i] = interleave[i];
-	it[3] = '\0';
-
-	fputs("interleave = ", fp); fprintf(fp, "%s\n", it);
+	fputs("interleave = ", fp); fprintf(fp, "%.3s\n", interleave);
 
 	if(wavelength!=NULL)
 	{
-- 
2.43.0


From c72a5799bc99134eaceac3fe7090813937088865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 009/121] fix: save and copy hyper mats of more than 2^31 bytes
 completely

---
 modules/core/src/c_src/hypermat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 7e11cdc..7fd0044 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -317,7 +317,7 @@ void hmsave(const char* image_path, hyper_mat mat)
 	FILE* image_fp;
 	image_fp = fopen(image_path, "wb");
 	hypercv_assert(image_fp != NULL, "can not open files");
-	fwrite(mat->data, elemsize, samples * lines * bands, image_fp);
+	fwrite(mat->data, elemsize, (long int)samples * lines * bands, image_fp);
 	writehdr(image_path, samples, lines, bands, mat->data_type, mat->interleave,mat->wavelength);
 	fclose(image_fp);
 
@@ -423,7 +423,7 @@ void hyper_mat_copy_to(hyper_mat src_mat, hyper_mat dst_mat)
 	char* src_data = (char*)src_mat->data;
 	char* dst_data = (char*)dst_mat->data;
 
-	memcpy(dst_data, src_data, samples*lines*bands*elemsize);
+	memcpy(dst_data, src_data, (long int)samples*lines*bands*elemsize);
 	hyper_mat_copy_wavelength(src_mat, dst_mat);
 
 	for(int i=0;i<3;i++)
-- 
2.43.0


From 773841b0466cb284c082e6b2bb538682037a6c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 010/121] fix: simple mats are created zeroed in every channel,
 sized without overflow, with a checked type

---
 modules/core/src/c_src/simplemat.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 869b43b..63a0e2d 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -26,17 +26,17 @@ simple_mat create_simple_mat(int rows, int cols, int date_type, int channels)
 simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int channels, void* data)
 {
 	hypercv_assert(rows > 0 && cols > 0, "the rows and cols of mat must be greater than zero ");
+	hypercv_assert(channels > 0, "the channels of mat must be greater than zero ");
+	hypercv_assert(get_elemsize(data_type) > 0, "the data type of mat is not supported ");
 
 	simple_mat mat;
 
-	int memneeded = sizeof(SIMPLE_MAT);
+	long int memneeded = sizeof(SIMPLE_MAT) + ALLOC_BYTE_ALIGNMENT;
 	int elem_size = get_elemsize(data_type);
+	long int data_size = (long int)rows * cols * elem_size * channels;
 
 	if (data == NULL)
-	{
-		int data_size = rows * cols * elem_size * channels; 
-		memneeded += data_size + ALLOC_BYTE_ALIGNMENT;
-	}
+		memneeded += data_size;
 
 	mat = (simple_mat)malloc(sizeof(char) * memneeded);
 	hypercv_assert(mat != NULL, "failed to allocate memory");
@@ -45,7 +45,7 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 	{
 		uintptr_t address = (uintptr_t)mat + sizeof(SIMPLE_MAT);
 		BYTE_ALIGNMENT(address, ALLOC_BYTE_ALIGNMENT);
-		memset((void*)address, 0, rows * cols * elem_size);
+		memset((void*)address, 0, data_size);
 		mat -> data = (void*)address;
 	}
 	else
-- 
2.43.0


From 3a6b4b8c544879c2b43e3bd637f018abc6707ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 011/121] fix: delete_simple_mat frees each block exactly once
 wherever the blocks lie

---
 modules/core/src/c_src/simplemat.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 63a0e2d..1c2c763 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -494,7 +494,12 @@ void delete_simple_mat(simple_mat mat)
 	if(mat == NULL)
 		return;
 
-	if((uintptr_t)mat + ALLOC_BYTE_ALIGNMENT >= (uintptr_t)mat->data)
+	//the data of a mat that owns a single block always starts at this address,
+	//which lies inside the block of the mat header whoever allocated the data.
+	uintptr_t address = (uintptr_t)mat + sizeof(SIMPLE_MAT);
+	BYTE_ALIGNMENT(address, ALLOC_BYTE_ALIGNMENT);
+
+	if(address == (uintptr_t)mat->data)
 	{
 		free(mat);
 		mat = NULL;	
-- 
2.43.0


From 9410b1433d199017c2329963aa792c2209fa5031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 012/121] fix: smread reads every channel and rejects short
 files

---
 modules/core/src/c_src/simplemat.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 1c2c763..7e252e8 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -74,15 +74,18 @@ simple_mat smread(const char * image_path, int rows, int cols, int data_type, in
 
 	hypercv_assert(image_fp != NULL, "can not open files");
 
-	int elem_size = get_elemsize(data_type);
-	int data_size = rows * cols;
-	void* data = (void *)malloc(data_size * elem_size);
+	simple_mat mat = create_simple_mat(rows, cols, data_type, channels);
 
-	fread(data, elem_size, data_size, image_fp);
+	long int data_size = (long int)rows * cols * channels;
+	long int read_size = fread(mat->data, mat->elem_size, data_size, image_fp);
 	fclose(image_fp);
 
-	simple_mat mat;
-	mat = create_simple_mat_with_data(rows, cols, data_type, channels, data);
+	if (read_size != data_size)
+	{
+		printf("the image file is smaller than its size\n");
+		delete_simple_mat(mat);
+		return NULL;
+	}
 
 	return mat;
 }
-- 
2.43.0


From d3723c7b826af3b4afbbc8ed6694010afb11ac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 013/121] fix: simple_mat_copy copies mats of more than 2^31
 bytes completely

---
 modules/core/src/c_src/simplemat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 7e252e8..d20d826 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -108,7 +108,7 @@ simple_mat simple_mat_copy(simple_mat mat)
 	char * src_data = (char*)mat->data;
 	char * dst_data = (char*)dst->data;
 	
-	memcpy(dst_data, src_data, rows*cols*elemsize*channels);
+	memcpy(dst_data, src_data, (long int)rows*cols*elemsize*channels);
 	
 	return dst;
 }
-- 
2.43.0


From 9f5ab6bef1d88b2a4b92cf6946e116ddb9fe65f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:27 +0000
Subject: [PATCH 014/121] fix: smwrite_bmp leaves its input mat as it is and
 writes the middle line of odd heights in bgr

---
 modules/core/src/c_src/simplemat.c | 32 ++++++++++--------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index d20d826..a19e8a9 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -238,35 +238,23 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 
 	fwrite(&infoHead, sizeof(BmpInfoHeader), 1, fp);
 
-	for(int i=0; i<height/2; i++)
+	//the file stores bgr lines from bottom to top, the mat must stay as it is.
+	unsigned char* line = (unsigned char*)calloc(lineByte, sizeof(unsigned char));
+	hypercv_assert(line != NULL, "malloc fail");
+	for(int i=height-1; i>=0; i--)
 	{
+		unsigned char* data = imgBuf + (long int)i*width*channels;
 		for(int j=0; j<width; j++)
 		{
 			for(int k=0; k<channels; k++)
-			{
-				int tempbuf = imgBuf[i*width*channels + j*channels + k];
-				imgBuf[i*width*channels + j*channels + k] = imgBuf[(height-i-1)*width*channels + j*channels + 2-k];
-				imgBuf[(height-i-1)*width*channels + j*channels + 2-k] = tempbuf;
-			}
-
+				line[j*channels + k] = data[j*channels + 2-k];
 		}
+		fwrite(line, lineByte, 1, fp);
 	}
+	free(line);
 
-	if(lineByte > width*biBitCount/8)
-	{
-		unsigned char* tmp = (unsigned char*)malloc(height*lineByte);
-		unsigned char* data = tmp ;
-		for(int i=0; i<height; i++)
-		{
-			memcpy(data, imgBuf, width*3);
-			imgBuf += width*3;
-			data += lineByte;
-		}
-		fwrite(tmp, height*lineByte, 1, fp);
-		free(tmp);
-	}
-	else 
-		fwrite(imgBuf, height*lineByte, 1, fp);
+	if(mat != src_mat)
+		delete_simple_mat(mat);
 
 	fclose(fp);
 }
-- 
2.43.0


From b1f6b4111b63a9e29b320eee6bb19733576e48d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:27 +0000
Subject: [PATCH 015/121] fix: smread_bmp converts the middle line of odd
 heights, looks up palettes and rejects damaged files

---
 modules/core/src/c_src/simplemat.c | 50 +++++++++++++-----------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index a19e8a9..d281505 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -126,9 +126,11 @@ simple_mat smread_bmp(const char *bmpName)
 	FILE *fp = fopen(bmpName, "rb");
 	hypercv_assert(fp!=NULL, "BMP IMAGE NOT EXIST");
 
-	fseek(fp, sizeof(BmpFileHeader), SEEK_SET);
+	BmpFileHeader fileHead;
 	BmpInfoHeader head;
-	fread(&head, sizeof(BmpInfoHeader), 1, fp);
+	hypercv_assert(fread(&fileHead, sizeof(BmpFileHeader), 1, fp) == 1 && fread(&head, sizeof(BmpInfoHeader), 1, fp) == 1, "BMP HEADER IS DAMAGED");
+	hypercv_assert(fileHead.bfType == 0x4D42 && head.biCompression == 0 && (head.biBitCount == 8 || head.biBitCount == 24), "ONLY 8 OR 24 BIT UNCOMPRESSED BMP");
+	hypercv_assert(head.biWidth > 0 && head.biHeight > 0 && head.biWidth < (1<<26), "BMP SIZE IS NOT SUPPORTED");
  
 	int channels   = 3;
 	int bmpWidth   = head.biWidth;
@@ -136,43 +138,35 @@ simple_mat smread_bmp(const char *bmpName)
 	int biBitCount = head.biBitCount;
     int lineByte   = (bmpWidth * biBitCount / 8 + 3) / 4 * 4;
 	
+	RGBQUAD pColorTable[256];
+	memset(pColorTable, 0, sizeof(pColorTable));
 	if (biBitCount == 8)
 	{
-		RGBQUAD *pColorTable = (RGBQUAD *)malloc(sizeof(RGBQUAD) * 1024);
-		fread(pColorTable, sizeof(RGBQUAD), 256, fp);
+		unsigned int colors = head.biClrUsed > 0 && head.biClrUsed < 256 ? head.biClrUsed : 256;
+		hypercv_assert(fread(pColorTable, sizeof(RGBQUAD), colors, fp) == colors, "BMP COLOR TABLE IS DAMAGED");
 	}
 	
-	unsigned char* pBmpBuf = (unsigned char *)malloc(sizeof(unsigned char) * lineByte * bmpHeight);
-	fread(pBmpBuf, 1, lineByte * bmpHeight, fp);
-	fclose(fp);
+	unsigned char* pBmpBuf = (unsigned char *)malloc(lineByte);
+	hypercv_assert(pBmpBuf != NULL, "malloc fail");
+	fseek(fp, fileHead.bfOffBits, SEEK_SET);
 
-	for(int i=0;i<bmpHeight/2;i++)
-	{
-		for(int j=0;j<bmpWidth;j++)
-		{
-			for(int k=0;k<channels;k++)
-			{
-				int tmp = pBmpBuf[i*lineByte + j*channels + k];
-				pBmpBuf[i*lineByte + j*channels + k] = pBmpBuf[(bmpHeight-i-1)*lineByte + j*channels + 2-k];
-				pBmpBuf[(bmpHeight-i-1)*lineByte + j*channels + 2-k] = tmp;
-			}
-		}
-	}
-	
 	simple_mat res = create_simple_mat(bmpHeight,bmpWidth,1,3);
-	unsigned char* res_data = (unsigned char*)res->data;
 
-	if(lineByte == bmpWidth * biBitCount / 8)
-		memcpy(res_data, pBmpBuf, lineByte*bmpHeight);
-	else
+	//the file stores bgr lines from bottom to top.
+	for(int i=bmpHeight-1; i>=0; i--)
 	{
-		for(int i=0; i<bmpHeight; i++)
+		unsigned char* pres = (unsigned char*)res->data + (long int)i*bmpWidth*channels;
+		hypercv_assert(fread(pBmpBuf, 1, lineByte, fp) == (size_t)lineByte, "BMP DATA IS DAMAGED");
+		for(int j=0; j<bmpWidth; j++)
 		{
-			unsigned char* pres = res_data + i*bmpWidth*channels;
-			unsigned char* pbmp = pBmpBuf + i*lineByte;
-			memcpy(pres, pbmp, bmpWidth*channels);
+			unsigned char* pbmp = pBmpBuf + j*channels;
+			RGBQUAD color = pColorTable[pBmpBuf[j]];
+			pres[j*channels + 0] = biBitCount == 8 ? color.rgbRed   : pbmp[2];
+			pres[j*channels + 1] = biBitCount == 8 ? color.rgbGreen : pbmp[1];
+			pres[j*channels + 2] = biBitCount == 8 ? color.rgbBlue  : pbmp[0];
 		}
 	}
+	fclose(fp);
 
 	free(pBmpBuf);
 	return res;
-- 
2.43.0


From 1f76fcea8dadde6a00a67397a4564099251122dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 016/121] fix: mean and variance read short and int mats as
 signed values

---
 modules/core/src/c_src/simplemat.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index d281505..3b1912f 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -277,6 +277,12 @@ float simple_mat_mean(simple_mat mat)
 				break;
 			}
 		case 2:
+			{
+				short* data = (short*) mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += data[i];
+				break;
+			}
 		case 12:
 			{
 				unsigned short* data = (unsigned short*) mat->data;
@@ -286,7 +292,7 @@ float simple_mat_mean(simple_mat mat)
 			}
 		case 3:
 			{
-				unsigned int* data = (unsigned int*) mat->data;
+				int* data = (int*) mat->data;
 				for(int i=0; i<rows*cols; i++)
 					res += data[i];
 				break;
@@ -327,6 +333,12 @@ float simple_mat_variance(simple_mat mat)
 				break;
 			}
 		case 2:
+			{
+				short* data = (short*)mat->data;
+				for(int i=0;i<rows*cols;i++)
+					res += pow(mean-data[i],2);
+				break;
+			}
 		case 12:
 			{
 				unsigned short* data = (unsigned short*)mat->data;
@@ -336,7 +348,7 @@ float simple_mat_variance(simple_mat mat)
 			}
 		case 3:
 			{
-				unsigned int* data = (unsigned int*)mat->data;
+				int* data = (int*)mat->data;
 				for(int i=0; i<rows*cols; i++)
 					res += pow(mean-data[i], 2);
 				break;
-- 
2.43.0


From 1633f5587707609a139c1c9231b783675527de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 017/121] fix: mean and variance keep their precision on large
 images and reject types they do not handle

---
 modules/core/src/c_src/simplemat.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 3b1912f..bae002d 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -265,7 +265,7 @@ float simple_mat_mean(simple_mat mat)
 	int rows = mat -> rows;
 	int cols = mat -> cols;
 
-	float res = 0.0;
+	double res = 0.0;
 
 	switch (mat -> data_type)
 	{
@@ -304,6 +304,8 @@ float simple_mat_mean(simple_mat mat)
 					res += data[i];
 				break;
 			}
+		default:
+			hypercv_assert(0, "the data type of mat is not supported");
 	}
 	return res/rows/cols;
 }
@@ -320,7 +322,7 @@ float simple_mat_variance(simple_mat mat)
 
 	int rows   = mat->rows;
 	int cols   = mat->cols;
-	float res  = 0.0;
+	double res  = 0.0;
 	float mean = simple_mat_mean(mat);
 	
 	switch (mat -> data_type)
@@ -360,6 +362,8 @@ float simple_mat_variance(simple_mat mat)
 					res += pow(mean-data[i], 2);
 				break;
 			}
+		default:
+			hypercv_assert(0, "the data type of mat is not supported");
 	}
 	return res/rows/cols;
 }
-- 
2.43.0


From f82871dfbe3112c8280034a323dabec88def2d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 018/121] fix: grayscale statistics no longer reject every gray
 array

---
 modules/core/src/c_src/simplemat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index bae002d..bf4d3bc 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -377,7 +377,7 @@ void simple_mat_grayscale_statistics(simple_mat mat, int* gray_statist)
 {
 	hypercv_assert(mat                  != NULL, "input mat cannot be NULL");
 	hypercv_assert(mat-> data_type      == 1,    "only use in unsigned char image");
-	hypercv_assert(sizeof(gray_statist) == 256,  "gray array error");
+	hypercv_assert(gray_statist         != NULL, "gray array error");
 
 	int rows     = mat->rows;
 	int cols     = mat->cols;
-- 
2.43.0


From c0bd6fffba384d7dd2e0fa4695cc7d133dd3e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 019/121] fix: image statistics free their gray temporaries

---
 modules/core/src/c_src/simplemat.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index bf4d3bc..3fd1ae5 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -397,6 +397,9 @@ void simple_mat_grayscale_statistics(simple_mat mat, int* gray_statist)
 
 	for(int i=0; i<rows*cols; i++)
 		gray_statist[data[i]]++;
+
+	if(tmp != mat)
+		delete_simple_mat(tmp);
 }
 
 
@@ -440,6 +443,10 @@ float simple_mat_contrast_ratio(simple_mat mat)
 	}
 
 	res = res/(4*(cols-2)*(rows-2)+3*2*(rows-2)+3*2*(cols-2)+2*4);
+
+	if(tmp != mat)
+		delete_simple_mat(tmp);
+
 	return res;
 }
 
@@ -456,16 +463,6 @@ float simple_mat_entropy(simple_mat mat)
 
 	int rows = mat->rows;
 	int cols = mat->cols;
-	int channels = mat->channels;
-
-	simple_mat tmp ;
-
-	if(channels != 1)
-		tmp = sm_rgb2gray(mat,0);
-	else 
-		tmp = mat;
-
-	unsigned char* data = (unsigned char*)tmp->data;
 
 	float res =0.0;
 
-- 
2.43.0


From 94371a04dfb69f477a50e9e5ac10a26cf5d11db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 020/121] fix: the data of a default 2D struct is freed with it

---
 modules/core/src/c_src/struct_2D.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/modules/core/src/c_src/struct_2D.c b/modules/core/src/c_src/struct_2D.c
index 416b0f6..05452a2 100644
--- a/modules/core/src/c_src/struct_2D.c
+++ b/modules/core/src/c_src/struct_2D.c
@@ -15,13 +15,20 @@ S_2D create_2D_struct(int width, int height)
 {
 	hypercv_assert(width>=1 && height>=1, "2D struct's width or height must bigger than 0");
 	
-	unsigned char * data = (unsigned char*)malloc(width * height * sizeof(unsigned char));
+	//the data follows the struct in one block, so that delete_S_2D frees both.
+	S_2D s = (S_2D)malloc(sizeof(STRUCT_2D) + (size_t)width * height * sizeof(unsigned char));
+	hypercv_assert(s != NULL ,"fail to build 2d_struct");
+
+	unsigned char * data = (unsigned char*)(s + 1);
 	
 	for(int i=0; i<width*height; i++)
 		data[i] = 1;
+
+	s->data = data;
+	s->width = width;
+	s->height = height;
 	
-	return create_2D_struct_with_data(width, height, data);
-	
+	return s;
 }
 
 /**
-- 
2.43.0


From 0515d39ac408363a3cbb72e24d93eb89d1cb1389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 021/121] fix: vector_init compiles and empties a vector before
 filling it

---
 modules/core/include/c_include/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/include/c_include/vector.h b/modules/core/include/c_include/vector.h
index 00970b2..5368492 100644
--- a/modules/core/include/c_include/vector.h
+++ b/modules/core/include/c_include/vector.h
@@ -164,9 +164,9 @@ vector_set_size((vec), vector_size(vec) + 1); \
 
 #define vector_init(vec,value,size) \
 	do{\
-		if(!vec)                                      \
+		if(vec)                                       \
 		{                                             \
-			vector_free(vec)                          \
+			vector_free(vec);                         \
 		}                                             \
 		size_t __temp_iter = 0;                       \
 		if(size)                                      \
-- 
2.43.0


From 898b8b7d11337de1fc252379e8f1066e17d21bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 022/121] fix: vector_pop_back on an empty vector no longer
 underflows its size

---
 modules/core/include/c_include/vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/core/include/c_include/vector.h b/modules/core/include/c_include/vector.h
index 5368492..0f4a33d 100644
--- a/modules/core/include/c_include/vector.h
+++ b/modules/core/include/c_include/vector.h
@@ -80,7 +80,8 @@
  */
 #define vector_pop_back(vec) \
 	do {                                              \
-		vector_set_size((vec), vector_size(vec) - 1); \
+		if(!vector_empty(vec))                        \
+			vector_set_size((vec), vector_size(vec) - 1); \
 	} while(0)
 
 /**
-- 
2.43.0


From 5e5b8ba083c4a3553a7fca557be3f6e4ac89dfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 023/121] fix: smwrite_bmp rejects mats that are neither gray
 nor rgb instead of reading past them

---
 modules/core/src/c_src/simplemat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 3fd1ae5..8d9d96a 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -182,6 +182,7 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 	hypercv_assert(bmpName != NULL, "write bmp image path can not be NULL");
 	hypercv_assert(src_mat != NULL,"save mat can not be null");
 	hypercv_assert(src_mat->data_type == 1,"save mat only 0-255");
+	hypercv_assert(src_mat->channels == 1 || src_mat->channels == 3,"save mat only gray or rgb");
 
 	FILE *fp = fopen(bmpName, "wb");
 	hypercv_assert(fp != NULL,"save file can not open");
-- 
2.43.0


From 2b3d0d6161a50035321d51eeb1504753c7726da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 024/121] fix: hyper_mat_get_range rejects ranges outside the
 mat instead of reading past it

---
 modules/process/src/c_src/imageprocess.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 5aa544a..7288286 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -389,6 +389,8 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 {
 	hypercv_assert(start_col<end_col && start_row<end_row && start_band<end_band, "start col & start row & start band must < end col & end row & end band");
 
+	hypercv_assert(start_row>=0 && start_col>=0 && start_band>=0 && end_row<=src_mat->lines && end_col<=src_mat->samples && end_band<=src_mat->bands, "range must be inside the hyper mat");
+
 	int samples = end_col - start_col;
 	int lines = end_row - start_row;
 	int bands = end_band - start_band;
-- 
2.43.0


From 8a0c899078069ada35f66e2b15e3321a792f62a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 025/121] fix: hyper_mat_2_simple_mat checks band and room and
 describes the result completely

---
 modules/process/src/c_src/imageprocess.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 7288286..bf706c7 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -511,6 +511,10 @@ void hyper_mat_2_simple_mat(hyper_mat src_mat, simple_mat dst_mat, int band)
 	int samples,lines;
 	samples = src_mat -> samples;
 	lines = src_mat -> lines;
+	hypercv_assert(band>0 && band<=src_mat->bands, "band must be between 1 and bands");
+	hypercv_assert((long int)dst_mat->rows * dst_mat->cols * dst_mat->channels * dst_mat->elem_size >= (long int)lines * samples * get_elemsize(src_mat->data_type), "simple mat is too small for a band");
+	dst_mat -> channels = 1;
+	dst_mat -> elem_size = get_elemsize(src_mat->data_type);
 	dst_mat -> rows = lines;
 	dst_mat -> cols = samples;
 	dst_mat -> data_type = src_mat -> data_type;
-- 
2.43.0


From d1d6a4fc224432b1c4910ae40cd0832d9568b513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 026/121] fix: simple_mat_2_hyper_mat writes whole elements at
 the place of the band

---
 modules/process/src/c_src/imageprocess.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index bf706c7..4e61a16 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -541,10 +541,13 @@ void simple_mat_2_hyper_mat(hyper_mat dst_mat, simple_mat src_mat, int band)
 	hypercv_assert(band<=bands&&band>0,"band<bands");
 	hypercv_assert(cmpstr(dst_mat -> interleave,"bsq") == 1, "input hyper mat's interleave must be bsq");
 
-	char* dst = (char*)dst_mat->data + samples*lines*(band-1);
+	hypercv_assert(src_mat->data_type == dst_mat->data_type && src_mat->channels == 1,"simple mat must be one band of the type of the hyper mat");
+
+	int elemsize = get_elemsize(dst_mat->data_type);
+	char* dst = (char*)dst_mat->data + samples*lines*(band-1)*elemsize;
 	char* src = (char*)src_mat->data;
 
-	memcpy(dst,src,samples*lines);
+	memcpy(dst,src,samples*lines*elemsize);
 }
 
 /**
-- 
2.43.0


From d478b39b56e988c58781b53730099f4772851989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 027/121] fix: simple_mat_transport moves every channel

---
 modules/process/src/c_src/imageprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 4e61a16..f534cca 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -560,10 +560,10 @@ void simple_mat_transport(simple_mat res,simple_mat src)
 	int rows = res->rows;
 	int cols = res->cols;
 	
-	hypercv_assert(rows == src->cols && cols == src->rows && res->data_type == src->data_type, "data size of transport image equal to srcmat ");
+	hypercv_assert(rows == src->cols && cols == src->rows && res->data_type == src->data_type && res->channels == src->channels, "data size of transport image equal to srcmat ");
 
 	int data_type = src->data_type;
-	int elemsize = get_elemsize(data_type);
+	int elemsize = get_elemsize(data_type) * src->channels;
 
 	char *res_data = (char*)res->data;
 	char *src_data = (char*)src->data;
-- 
2.43.0


From e0a6c45de82a98fbe3b1e0b8c5dc743d6b4891f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 028/121] fix: mat additions address each mat with its own
 width and check types and room

---
 modules/process/src/c_src/imageprocess.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index f534cca..5702f08 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -598,10 +598,13 @@ void simple_mat_addition_uchar(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
 
+	hypercv_assert(mat1->data_type == 1 && mat2->data_type == 1 && dst_mat->data_type == 1,"input mat data type error");
+	hypercv_assert(dst_mat->channels == channels && dst_mat->rows>=rows && dst_mat->cols>=cols,"dst mat is too small");
+
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)	
 			for(int k=0;k<channels;k++)
-				dst_data[i*cols*channels+j*channels+k] = data1[i*cols*channels+j*channels+k]+data2[i*cols*channels+j*channels+k];
+				dst_data[i*dst_mat->cols*channels+j*channels+k] = data1[i*mat1->cols*channels+j*channels+k]+data2[i*mat2->cols*channels+j*channels+k];
 
 }
 
@@ -627,10 +630,13 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	float* data2 = (float*)mat2->data;
 	float* dst_data = (float*)dst_mat->data;
 
+	hypercv_assert(mat1->data_type == 4 && mat2->data_type == 4 && dst_mat->data_type == 4,"input mat data type error");
+	hypercv_assert(dst_mat->channels == channels && dst_mat->rows>=rows && dst_mat->cols>=cols,"dst mat is too small");
+
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)
 			for(int k=0;k<channels;k++)
-				dst_data[i*cols*channels+j*channels+k] = data1[i*cols*channels+j*channels+k]+data2[i*cols*channels+j*channels+k];
+				dst_data[i*dst_mat->cols*channels+j*channels+k] = data1[i*mat1->cols*channels+j*channels+k]+data2[i*mat2->cols*channels+j*channels+k];
 
 }
 
-- 
2.43.0


From a70c8ce2039d876ac8f07c6ac231b76efb622b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 029/121] fix: simple_mat_log covers every channel

---
 modules/process/src/c_src/imageprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 5702f08..70601d3 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -643,10 +643,10 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 void simple_mat_log(simple_mat src_mat, simple_mat dst_mat)
 {
 	hypercv_assert(src_mat->data_type==4&&dst_mat->data_type == 4 , "input mat must be float mat");
-	hypercv_assert(src_mat->rows == dst_mat->rows && src_mat->cols == dst_mat->cols, "src mat size == dst_mat size");
+	hypercv_assert(src_mat->rows == dst_mat->rows && src_mat->cols == dst_mat->cols && src_mat->channels == dst_mat->channels, "src mat size == dst_mat size");
 
 	int rows = src_mat->rows;
-	int cols = src_mat->cols;
+	int cols = src_mat->cols * src_mat->channels;
 	
 	float* src_data = (float*)src_mat->data;
 	float* dst_data = (float*)dst_mat->data;
-- 
2.43.0


From 55320d6d30767595cd557e4f482b20eb8b4c8ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 030/121] fix: hyper_mat_splicing rejects parts that do not fit
 instead of writing past the mat

---
 modules/process/src/c_src/imageprocess.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 70601d3..13c56dd 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -658,6 +658,7 @@ void simple_mat_log(simple_mat src_mat, simple_mat dst_mat)
 void hyper_mat_splicing(hyper_mat mat, hyper_mat part, int start_index)
 {
 	hypercv_assert(mat->data_type == part->data_type,"data type error");
+	hypercv_assert(start_index >= 0 && (long int)start_index + (long int)part->samples*part->lines*part->bands <= (long int)mat->samples*mat->lines*mat->bands,"part must fit into the mat");
 
 	int elemsize = get_elemsize(mat->data_type); 
 
-- 
2.43.0


From 09cdeb7961225cf7b97218b8adbee76dfb3a9819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 031/121] fix: conversions from float saturate to the range of
 the integer type

---
 modules/process/src/c_src/datatypechange.c | 59 ++++++++--------------
 1 file changed, 20 insertions(+), 39 deletions(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index d345fd9..216c1ff 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -6,6 +6,16 @@
 
 #include "precomp.h"
 
+// private function to limit a value to the range of an integer type before it is rounded
+static double clamp_value(double value, double min, double max)
+{
+	if(value<min)
+		return min;
+	if(value>max)
+		return max;
+	return value;
+}
+
 /**
  * @brief      data type change .
  * @param[in]  uc_mat    unsigned char image.
@@ -143,7 +153,7 @@ hyper_mat hyper_mat_float2int(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 
 	for(int i=0;i<datasize;i++)
-		data[i]=HYPERCV_ROUND(fdata[i]);
+		data[i]=HYPERCV_ROUND(clamp_value(fdata[i],-2147483648.0,2147483647.0));
 	
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -171,15 +181,8 @@ hyper_mat hyper_mat_float2char(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
 	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-
-		if(tmp>127)
-			data[i] = 128;
-		else if(tmp<-127)
-			data[i] = -127;
-		else
-			data[i] = tmp;
-
+		tmp = HYPERCV_ROUND(clamp_value(fdata[i],-128,127));
+		data[i] = tmp;
 	}
 		
 	if(f_mat->wavelength != NULL)
@@ -208,7 +211,7 @@ hyper_mat hyper_mat_float2short(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 
 	for(int i=0;i<datasize;i++)
-		data[i] =(short)HYPERCV_ROUND(fdata[i]);
+		data[i] =(short)HYPERCV_ROUND(clamp_value(fdata[i],-32768,32767));
 		
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -236,11 +239,8 @@ hyper_mat hyper_mat_float2ushort(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
 	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-		if(tmp<0)
-			data[i] =0;
-		else
-			data[i] = tmp;
+		tmp = HYPERCV_ROUND(clamp_value(fdata[i],0,65535));
+		data[i] = tmp;
 	}	
 
 	if(f_mat->wavelength != NULL)
@@ -269,15 +269,8 @@ hyper_mat hyper_mat_float2uchar(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
 	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-
-		if(tmp>255)
-			data[i] = 255;
-		else if(tmp<0)
-			data[i] = 0;
-		else
-			data[i] = tmp;
-
+		tmp = HYPERCV_ROUND(clamp_value(fdata[i],0,255));
+		data[i] = tmp;
 	}	
 
 	if(f_mat->wavelength != NULL)
@@ -302,20 +295,9 @@ hyper_mat hyper_mat_float2uint(hyper_mat f_mat)
 
 	unsigned int * data = dst->data;
 	float* fdata = f_mat->data;
-	int tmp = 0;
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
-	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-
-		if(tmp>4294967295)
-			data[i] =4294967295;
-		else if(tmp<0)
-			data[i] = 0;
-		else
-			data[i] = tmp;
-
-	}	
+		data[i] = (unsigned int)llrint(clamp_value(fdata[i],0,4294967295.0));
 
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -379,8 +361,7 @@ simple_mat simple_mat_float2uchar(simple_mat src)
 	   */
 	for(int i=0;i<rows*cols*cn;i++)
 	{
-		dst_data[i] = HYPERCV_ROUND(src_data[i])<=255?HYPERCV_ROUND(src_data[i]):255;
-		dst_data[i] = dst_data[i]>=0?dst_data[i]:0;
+		dst_data[i] = HYPERCV_ROUND(clamp_value(src_data[i],0,255));
 	}
 	return dst;
 }
-- 
2.43.0


From a4c29200738319da094a5a5ffcfa0c6cf1c699cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 032/121] fix: hypercv_atof keeps the sign before trailing text
 and reads negative exponents

---
 modules/process/src/c_src/datatypechange.c | 34 +++++++++++-----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index 216c1ff..5470ed4 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -385,7 +385,7 @@ float hypercv_atof(const char *str)
 	else if (*p == '+')
 		++p;
 	int hasDot = 0,hasE = 0;
-	float integerPart = 0.0,decimalPart = 0.0;
+	double integerPart = 0.0,decimalPart = 0.0;
 
 	for (; *p; ++p)
 	{
@@ -404,34 +404,34 @@ float hypercv_atof(const char *str)
 			break;
 		}
 		else
-			return integerPart;
+			return sign * integerPart;
 	}
 
 	int decimalDigits = 1;
 	int exponential = 0;    
 
-	for (; *p; p++)
+	for (; hasDot && *p; p++)
 	{
-		if (hasDot && isdigit(*p))
+		if (isdigit(*p))
 			decimalPart += (*p - '0') / pow(10, decimalDigits++);
-		else if (hasDot && (*p == 'e' || *p == 'E'))
+		else
 		{
-			integerPart += decimalPart;
-			decimalPart = 0.0;
-			hasE = 1;
-			++p;
+			if (*p == 'e' || *p == 'E')
+			{
+				hasE = 1;
+				++p;
+			}
 			break;
 		}
-		else if (hasE && isdigit(*p))
-			exponential = 10 * exponential + *p - '0';
-		else break;
 	}
 
-	if (hasE && hasDot)
-		for (; *p; p++)
-			if (isdigit(*p))
-				exponential = 10 * exponential + *p - '0';
-	return sign * (integerPart * pow(10, exponential) + decimalPart);
+	int exponentialSign = 1;
+	if (hasE && (*p == '-' || *p == '+'))
+		exponentialSign = *p++ == '-' ? -1 : 1;
+	for (; hasE && isdigit(*p) && exponential < 1000; p++)
+		exponential = 10 * exponential + *p - '0';
+
+	return sign * (integerPart + decimalPart) * pow(10, exponentialSign * exponential);
 
 }
 
-- 
2.43.0


From 85ee4dc171cdfbcca1247ca8ac516e6be962e4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 033/121] fix: matrix products do not depend on what the result
 held before

---
 modules/process/src/c_src/matrixprocess.c | 24 +++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 8e8dc98..5eed698 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -12,8 +12,11 @@ void MulMatrix_char(char *x,char *y,char*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -26,8 +29,11 @@ void MulMatrix_uchar(unsigned char *x,unsigned char *y, unsigned char*z, int m,i
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -40,8 +46,11 @@ void MulMatrix_short(short *x,short *y,short*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -54,8 +63,11 @@ void MulMatrix_ushort(unsigned short *x,unsigned short *y,unsigned short *z, int
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 
 //矩阵乘法
@@ -69,8 +81,11 @@ void MulMatrix_int(int *x,int *y,int*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -83,8 +98,11 @@ void MulMatrix_uint(unsigned int *x, unsigned int *y, unsigned int *z, int m,int
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -97,8 +115,11 @@ void MulMatrix_float(float *x,float *y, float* z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -111,8 +132,11 @@ void MulMatrix_double(double *x, double *y, double*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 
 //距阵转置
-- 
2.43.0


From 38abae64204bb64c451c7f2c7c54e8d78a7487f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 034/121] fix: QR decomposition projects on the columns of q,
 clears the lower part of r and frees its buffers

---
 modules/process/src/c_src/matrixprocess.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 5eed698..d76760f 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -260,10 +260,11 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 		for(int k=0;k<j;k++)
 		{
 			r[k*m+j] = 0;
+			r[j*m+k] = 0;
 			for(int i1=0; i1<m;i1++)
-				r[k*m+j]+=col_a[i1];
+				r[k*m+j]+=col_a[i1]*q[i1*m+k];
 			for(int i2=0;i2<m;i2++)
-				col_q[i2] -= r[k*m+j];
+				col_q[i2] -= r[k*m+j]*q[i2*m+k];
 		}
 
 		float tmp = matrix_norm_float(col_q,m);
@@ -271,6 +272,9 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 		for(int i = 0;i<m;i++)
 			q[i*m+j] = col_q[i]/tmp;
 	}
+
+	free(col_a);
+	free(col_q);
 }
 
 void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m,int n)
-- 
2.43.0


From 9cc134908d938d62e427766df5d99faccc28cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 035/121] fix: eigen vectors normalise the whole pivot row

---
 modules/process/src/c_src/matrixprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index d76760f..713d7e5 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -294,7 +294,7 @@ void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m
 		{
 			float coe = temp[i*n+i];
 			
-			for(int j=1;j<n;j++)
+			for(int j=i;j<n;j++)
 				temp[i*n+j]/=coe;
 
 			for (int i1 = i + 1; i1 < m; i1++)
-- 
2.43.0


From 1cc854fba8ace8b697ff3783676c8e3b729c3487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 036/121] fix: spectral angle no longer truncates products to
 int nor turns rounding into NaN

---
 modules/process/src/c_src/spectralprocess.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 4eaf7f7..5ccb3f9 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -93,12 +93,14 @@ float spectral_angle_mapper(float * x, float * y, int length)
 
 	for (int i = 0; i<length; i++)
 	{
-		XY += abs(x[i] * y[i]);
+		XY += fabs(x[i] * y[i]);
 		X += (x[i])*(x[i]);
 		Y += (y[i])*(y[i]);
 	}
 
-	res = acos(XY / sqrt(X*Y));
+	double cosine = XY / (sqrt(X) * sqrt(Y));
+
+	res = acos(cosine > 1.0 ? 1.0 : cosine);
 
 	return res;
 }
-- 
2.43.0


From 50f00407fb130f49d563db98094e898c0d39e38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 037/121] fix: spectral functions reject mats of other data
 types instead of reading past them

---
 modules/process/src/c_src/spectralprocess.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 5ccb3f9..d907ac7 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -40,6 +40,7 @@ simple_mat spectrum_SAM_match(hyper_mat bip_mat, float* spectrum, float threshol
 {
 	hypercv_assert(bip_mat != NULL,                       "input hyper mat must not be NULL");
 	hypercv_assert(cmpstr(bip_mat->interleave,"bip") == 1,"hyper mat interleave should be bip");
+	hypercv_assert(bip_mat->data_type == 4,               "hyper mat data type should be float");
 	hypercv_assert(spectrum != NULL,                      "spectrum must not be NULL");
 
 	int samples = bip_mat -> samples;
@@ -163,7 +164,7 @@ void hyper_mat_mean(hyper_mat bip_mat, simple_mat dst_mat)
 	int lines = bip_mat -> lines;
 	int bands = bip_mat -> bands;
 	hypercv_assert(samples == dst_mat -> cols&&lines == dst_mat->rows,"dst_mat size == bip_mat size");
-	hypercv_assert(dst_mat->data_type == 4,"simple mat datatype ==4");
+	hypercv_assert(bip_mat->data_type == 4 && dst_mat->data_type == 4,"simple mat datatype ==4");
 //todo other data type
 	float* src_data = (float*)bip_mat->data;
 	float* dst_data = (float*)dst_mat->data;
@@ -192,7 +193,7 @@ void hyper_mat_transport(hyper_mat dst_mat, hyper_mat src_mat)
 	int s_lines = src_mat->lines;
 	int d_lines = dst_mat->lines;
 	int bands = src_mat->bands;
-	hypercv_assert(s_samples == d_lines && s_lines == d_samples&& bands == dst_mat->bands,"size must equal");
+	hypercv_assert(s_samples == d_lines && s_lines == d_samples&& bands == dst_mat->bands && src_mat->data_type == dst_mat->data_type,"size must equal");
 	char* src =(char*)src_mat->data;
 	char* dst =(char*)dst_mat->data;
 	int elemsize = get_elemsize(src_mat ->data_type);
-- 
2.43.0


From 0aaf1246fd26fa9408bba707b7cfeee65e2a44a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 038/121] fix: read_spectrum_file stops at the length and at
 text that is no number

---
 modules/process/src/c_src/spectralprocess.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index d907ac7..fd58661 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -120,17 +120,20 @@ float* read_spectrum_file(const char* sp_path, int length)
 
 	float* spectrum = (float*)malloc(length*sizeof(float));
 
-	float* sp = spectrum;
+	int count = 0;
 
-	float temp = 0;
+	while (count < length && fscanf(fp, "%f", spectrum + count) == 1)
+		count++;
+
+	fclose(fp);
 
-	while (fscanf(fp, "%f", &temp) != EOF)
+	if (count < length)
 	{
-		*sp = temp;
-		sp++;
+		printf("the spectrum file has less values than its length\n");
+		free(spectrum);
+		return NULL;
 	}
 
-	fclose(fp);
 	return spectrum;
 }
 
-- 
2.43.0


From bf22f501b145c8e053cc024f3f5d2b7a151d6bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 039/121] fix: relative radiometric correction addresses the
 coefficient of each detector

---
 modules/process/src/c_src/RadiometricCalibration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/RadiometricCalibration.c b/modules/process/src/c_src/RadiometricCalibration.c
index f544fd0..7cfda62 100644
--- a/modules/process/src/c_src/RadiometricCalibration.c
+++ b/modules/process/src/c_src/RadiometricCalibration.c
@@ -24,7 +24,7 @@ hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 		{
 			for (int k = 0; k < bands; k++)
 			{
-				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*bands + j];
+				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*samples + j];
 			}
 		}
 	}
-- 
2.43.0


From ba9e9349b6195264aca92e6d2ee9b6ea64e2e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 040/121] fix: radiometric correction keeps the wavelengths

---
 modules/process/src/c_src/RadiometricCalibration.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/process/src/c_src/RadiometricCalibration.c b/modules/process/src/c_src/RadiometricCalibration.c
index 7cfda62..97f8869 100644
--- a/modules/process/src/c_src/RadiometricCalibration.c
+++ b/modules/process/src/c_src/RadiometricCalibration.c
@@ -28,6 +28,7 @@ hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 			}
 		}
 	}
+	hyper_mat_copy_wavelength(bip_mat, res);
 	return res;
 }
 
@@ -59,6 +60,7 @@ hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 			}
 		}
 	}
+	hyper_mat_copy_wavelength(bip_mat, res);
 	return res;
 }
 
-- 
2.43.0


From 78cc378a935352c302a303cdf8ed072e938e5cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 041/121] fix: radiometric correction rejects mats of other
 types and interleaves

---
 modules/process/src/c_src/RadiometricCalibration.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/process/src/c_src/RadiometricCalibration.c b/modules/process/src/c_src/RadiometricCalibration.c
index 97f8869..658264e 100644
--- a/modules/process/src/c_src/RadiometricCalibration.c
+++ b/modules/process/src/c_src/RadiometricCalibration.c
@@ -8,6 +8,9 @@
 **/
 hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 {
+	hypercv_assert(bip_mat != NULL && coefficient != NULL, "input can not be NULL");
+	hypercv_assert(bip_mat->data_type == 12 && cmpstr(bip_mat->interleave,"bip") == 1, "input hyper mat must be bip unsigned short");
+
 	int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
@@ -40,6 +43,9 @@ hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 **/
 hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 {
+	hypercv_assert(bip_mat != NULL && coefficient != NULL, "input can not be NULL");
+	hypercv_assert(bip_mat->data_type == 4 && cmpstr(bip_mat->interleave,"bip") == 1, "input hyper mat must be bip float");
+
 	int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
-- 
2.43.0


From 0705254526cac8dc997676cf258ad3118c5b3e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 042/121] fix: 10! is 3628800

---
 modules/process/src/c_src/mathprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/mathprocess.c b/modules/process/src/c_src/mathprocess.c
index 412c8ff..103a851 100644
--- a/modules/process/src/c_src/mathprocess.c
+++ b/modules/process/src/c_src/mathprocess.c
@@ -6,7 +6,7 @@
  ************************************************************************/
 #include "precomp.h"
 
-static long int hypercv_factorial_tab[11]={1 , 1 , 2 , 6 , 24 , 120 , 720 , 5040 , 40320 , 362880 , 39916800};
+static long int hypercv_factorial_tab[11]={1 , 1 , 2 , 6 , 24 , 120 , 720 , 5040 , 40320 , 362880 , 3628800};
 /**
  * @brief      calculate the mean value . .
  * @param[in]  t          vector t
-- 
2.43.0


From 5832c883bbb0076ed88d6a240288a45ae5fc2e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 043/121] fix: weighted gray uses 0.587 for green so that white
 stays white

---
 modules/process/src/c_src/colortransform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/colortransform.c b/modules/process/src/c_src/colortransform.c
index 0ed2819..5b5b139 100644
--- a/modules/process/src/c_src/colortransform.c
+++ b/modules/process/src/c_src/colortransform.c
@@ -124,7 +124,7 @@ simple_mat sm_rgb2gray(simple_mat rgb_image, int method)
 			}
 			else if (method == 2)
 			{
-				tmp = rgb_data[i*cols*3+j*3]*0.299+rgb_data[i*cols*3+j*3+1]*0.578+rgb_data[i*cols*3+j*3+2]*0.114;
+				tmp = rgb_data[i*cols*3+j*3]*0.299+rgb_data[i*cols*3+j*3+1]*0.587+rgb_data[i*cols*3+j*3+2]*0.114;
 				gray_data[i*cols+j] = (int)tmp;
 			}
 			else
-- 
2.43.0


From 2697658ae3c352e4e37768ddf8e2af7445a1e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 044/121] fix: morphology addresses images by their width

---
 modules/process/src/c_src/morphology.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index c533ba3..0a96363 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -47,7 +47,7 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 		for(int j=0; j<cols; j++)
 		{	
 			flag = 0;
-			if(src[i*rows+j]!=0)
+			if(src[i*cols+j]!=0)
 			{
 				for(int m=0; m<height; m++)
 				{
@@ -55,18 +55,18 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*rows+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
 								flag = 1;
 						}
 					}
 				}
 				if(flag ==0)
-					dst[i*rows+j] = src[i*rows+j];
+					dst[i*cols+j] = src[i*cols+j];
 				else
-					dst[i*rows+j] = 0;
+					dst[i*cols+j] = 0;
 			}
 			else
-				dst[i*rows+j] = 0;
+				dst[i*cols+j] = 0;
 		}
 	}
 }
@@ -111,7 +111,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 		for(int j=0; j<cols; j++)
 		{	
 			flag = 0;
-			if(src[i*rows+j]==0)
+			if(src[i*cols+j]==0)
 			{
 				for(int m=0; m<height; m++)
 				{
@@ -119,18 +119,18 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*rows+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
 								flag = 1;
 						}
 					}
 				}
 				if(flag ==0)
-					dst[i*rows+j] = src[i*rows+j];
+					dst[i*cols+j] = src[i*cols+j];
 				else
-					dst[i*rows+j] = 1;
+					dst[i*cols+j] = 1;
 			}
 			else
-				dst[i*rows+j] = src[i*rows+j];
+				dst[i*cols+j] = src[i*cols+j];
 		}
 	}
 }
-- 
2.43.0


From 56067e4cf8f282782150b9aae33eeda48bf1f1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 045/121] fix: expansion grows the foreground instead of the
 background

---
 modules/process/src/c_src/morphology.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index 0a96363..a7095f8 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -119,7 +119,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]!=0)
 								flag = 1;
 						}
 					}
-- 
2.43.0


From e0cc10fc2df8b10bbe803006ee7680261bf89899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 046/121] fix: open and close apply their second step to the
 result of the first

---
 modules/process/src/c_src/morphology.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index a7095f8..20e7ed4 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -157,11 +157,15 @@ void hypercv_open(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 	if(dst == NULL)
 		dst = simple_mat_copy(src);
 
+	simple_mat tmp = simple_mat_copy(src);
+
 	for(int i=0;i<iterations;i++)
 	{
-	    hypercv_corrosion(src,dst,kernel);
-		hypercv_expend(src,dst,kernel);
+	    hypercv_corrosion(i==0?src:dst,tmp,kernel);
+		hypercv_expend(tmp,dst,kernel);
 	}
+
+	delete_simple_mat(tmp);
 }
 
 /**
@@ -185,11 +189,15 @@ void hypercv_close(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 	if(dst == NULL)
 		dst = simple_mat_copy(src);
 
+	simple_mat tmp = simple_mat_copy(src);
+
 	for(int i=0;i<iterations;i++)
 	{
-		hypercv_expend(src,dst,kernel);
-	    hypercv_corrosion(src,dst,kernel);
+		hypercv_expend(i==0?src:dst,tmp,kernel);
+	    hypercv_corrosion(tmp,dst,kernel);
 	}
+
+	delete_simple_mat(tmp);
 }
 
 
-- 
2.43.0


From 9f1cc6448ff7f26f7918781c8bbb115d04285ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 047/121] fix: otsu reads a gray image as gray instead of past
 its end

---
 modules/process/src/c_src/threshold.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/threshold.c b/modules/process/src/c_src/threshold.c
index 5323e6f..967d7ba 100644
--- a/modules/process/src/c_src/threshold.c
+++ b/modules/process/src/c_src/threshold.c
@@ -32,7 +32,11 @@ int otsuThreshold(simple_mat img)
 	{//计算直方图
 		for(int j=0;j<width;j++)
 		{
-			double temp =data[i*step + j * 3] * 0.114 + data[i*step + j * 3+1] * 0.587 + data[i*step + j * 3+2] * 0.299;
+			double temp;
+			if(channels == 1)
+				temp = data[i*step + j];
+			else
+				temp = data[i*step + j * 3] * 0.114 + data[i*step + j * 3+1] * 0.587 + data[i*step + j * 3+2] * 0.299;
 			temp = temp<0? 0:temp;
 			temp = temp>255? 255:temp;
 			Histogram[(int)temp]++;
-- 
2.43.0


From f662361126e08d12c9cfc5989eaef80c5d14c766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 048/121] fix: otsu splits the image at the threshold it
 computed

---
 modules/process/src/c_src/threshold.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/threshold.c b/modules/process/src/c_src/threshold.c
index 967d7ba..2bed2de 100644
--- a/modules/process/src/c_src/threshold.c
+++ b/modules/process/src/c_src/threshold.c
@@ -208,7 +208,7 @@ void hypercv_threshold_otsu(simple_mat src_mat, simple_mat dst_mat)
 
 	for(int i=0;i<rows*cols*channels;i++)
 	{
-		if(src_data[i]<thresh)
+		if(src_data[i]<=thresh)
 			dst_data[i] = 0;
 		else
 			dst_data[i] = 255;
-- 
2.43.0


From 09dcdd52a758477282e9edbeac370ee07efeac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 049/121] fix: filter2D checks the type of its result instead
 of overwriting it

---
 modules/process/src/c_src/filter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 3ce9c5e..691be8c 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -87,7 +87,7 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 {
 	hypercv_assert(src!= NULL&&dst!=NULL,"input mat cannot be null");
 	hypercv_assert(kernel!=NULL,"kernel cannot be null");
-	hypercv_assert(dst->data_type = 4,"dst data_type == float");
+	hypercv_assert(dst->data_type == 4,"dst data_type == float");
 
 	int rows = src->rows;
 	int cols = src->cols;
-- 
2.43.0


From b8da7d37586342bb3c3342726f6e8fcb6e46e11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 050/121] fix: filter2D does not depend on what its result held
 before

---
 modules/process/src/c_src/filter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 691be8c..78f0377 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -102,6 +102,9 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 	{
 		for(int j=0;j<cols;j++)
 		{
+			for(int t=0; t<cn; t++)
+				dst_data[i*cols*cn+j*cn+t] = 0;
+
 			for(int m=0; m<k_rows; m++)
 			{
 				if ((i+m-k_rows/2<0)||(i+m-k_rows/2>=rows))
-- 
2.43.0


From ecb1a395b1987e017c57d4501c919d6499154a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 051/121] fix: constant borders count as zero instead of
 repeating the second row or column

---
 modules/core/include/c_include/type.h |  2 +-
 modules/process/src/c_src/filter.c    | 12 ++++++++++++
 modules/process/src/c_src/gradient.c  |  6 ++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/modules/core/include/c_include/type.h b/modules/core/include/c_include/type.h
index 6af5017..17e4cc9 100644
--- a/modules/core/include/c_include/type.h
+++ b/modules/core/include/c_include/type.h
@@ -181,7 +181,7 @@ static inline int hypercv_border_Interpolate(int p, int len, unsigned int border
 			}
 		case BORDER_CONSTANT:
 			{
-				index = 1;
+				index = -1;	//outside of the image, there is nothing to read
 				break;
 			}
 	}
diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 78f0377..0815e34 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -112,12 +112,18 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 				else
 					index_i = i+m-k_rows/2;
 
+				if (index_i < 0)
+					continue;
+
 				for(int n=0; n<k_cols; n++)
 				{
 					if ((j+n-k_cols/2<0)||(j+n-k_cols/2>=cols))
 						index_j = hypercv_border_Interpolate( j+n-k_cols/2, cols, border_type);
 					else
 						index_j = j+n-k_cols/2;
+
+					if (index_j < 0)
+						continue;
 			
 					if (cn == 1)
 						dst_data[i*cols+j] += (kernel[m*k_cols+n]*src_data[index_i*cols+index_j]);
@@ -377,6 +383,9 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 					index = j+k-border_x;
 				}
 
+				if (index < 0)
+					continue;
+
 				if (cn == 1)
 				{
 					sum[0] += (kx_data[k]*src_data[i*src_cols+index]);
@@ -424,6 +433,9 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 					index =j+k-border_y;
 				}
 
+				if (index < 0)
+					continue;
+
 				if (cn == 1)
 					sum[0] += (ky_data[k]*temp_data[(index)*temp_mat->cols+i]);
 				else if (cn == 3)
diff --git a/modules/process/src/c_src/gradient.c b/modules/process/src/c_src/gradient.c
index 61638b9..8f1e3fc 100644
--- a/modules/process/src/c_src/gradient.c
+++ b/modules/process/src/c_src/gradient.c
@@ -54,6 +54,9 @@ void hypercv_laplacian(simple_mat src, simple_mat dst, int k_size, int border_ty
 					else
 						index_n = j+n-1;
 
+					if(index_m<0||index_n<0)
+						continue;
+
 					sum += kernel[m][n]*src_data[index_m*cols+index_n];
 				}
 			}
@@ -117,6 +120,9 @@ void hypercv_sobel(simple_mat src, simple_mat dst, int threshold, int border_typ
 					else
 						index_n = j+n-1;
 
+					if(index_m<0||index_n<0)
+						continue;
+
 					gradx += gx[m][n]*src_data[index_m*cols+index_n];
 					grady += gy[m][n]*src_data[index_m*cols+index_n];
 				}
-- 
2.43.0


From 87e345fa71ee3e7b37b67008fa70f9f45e65a70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 052/121] fix: medianblur accepts images and takes the median
 of the whole window

---
 modules/process/src/c_src/filter.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 0815e34..ea4982d 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -11,19 +11,19 @@
 /////////////////////////////////////////////////////////////////////////
 //____________________private function________________________
 
-static void swap(unsigned char a,unsigned char b)
+static void swap(unsigned char* a,unsigned char* b)
 {
-	unsigned char c = a;
-	a = b;
-	b = c;
+	unsigned char c = *a;
+	*a = *b;
+	*b = c;
 }
 
 static unsigned char median_member(unsigned char* array,int size)
 {
-	for(int gap = size/2; gap++; gap/=2)
+	for(int gap = size/2; gap>0; gap/=2)
 		for(int i=gap; i<size; i++)
 			for(int j=i-gap; j>=0 && array[j]>array[j+gap]; j-=gap)
-				swap(array[j],array[j+gap]);
+				swap(&array[j],&array[j+gap]);
 	return array[size/2]; 
 }
 
@@ -148,8 +148,8 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
  **/
 void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
-	hypercv_assert(!src_mat,"input mat can not be NULL");
-	hypercv_assert(size%2==1,"size should be odd number");
+	hypercv_assert(src_mat,"input mat can not be NULL");
+	hypercv_assert(size>0&&size%2==1,"size should be odd number");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
 	int data_type = src_mat->data_type;
@@ -168,12 +168,13 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 				for(int m = -size/2;m<=size/2;m++)
 					for(int n = -size/2; n<=size/2;n++)
 						arr[(m+size/2)*size+n+size/2] = src_data[(i+m)*cols+j+n];
-				dst_data[i*cols+j] = median_member(arr,size); 
+				dst_data[i*cols+j] = median_member(arr,size*size); 
 			}
 			else 
 				dst_data[i*cols+j] = src_data[i*cols+j];
 		}
 	}
+	free(arr);
 }
 
 /**
-- 
2.43.0


From 7ee9df67906e9437197fd4a5fdb6c51c841cd228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 053/121] fix: meanblur accepts images and averages the whole
 window

---
 modules/process/src/c_src/filter.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index ea4982d..c3e6c78 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -185,7 +185,8 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
  **/
 void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
-	hypercv_assert(!src_mat,"input mat can not be NULL");
+	hypercv_assert(src_mat,"input mat can not be NULL");
+	hypercv_assert(size>0,"size should be greater than zero");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
 	int data_type = src_mat->data_type;
@@ -193,20 +194,19 @@ void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 
 	unsigned char* src_data = (unsigned char*) src_mat->data;
 	unsigned char* dst_data = (unsigned char*) dst_mat->data;
-	unsigned char* arr = (unsigned char*) malloc(size*size*sizeof(char));
 
 	for(int i=0;i<rows;i++)
 	{
 		for(int j=0;j<cols;j++)
 		{
 		    int sum=0,num=0;
-			for(int m = -size/2;m<size/2;m++)
+			for(int m = -size/2;m<size-size/2;m++)
 			{
-				for(int n = -size/2; n<size/2;n++)
+				for(int n = -size/2; n<size-size/2;n++)
 				{
-					if((i+m)>=0&&(i+m)<rows&&(j+m)>=0&&(j+m)<cols)
+					if((i+m)>=0&&(i+m)<rows&&(j+n)>=0&&(j+n)<cols)
 					{
-						sum+= src_data[(i+m)*cols+j+m];
+						sum+= src_data[(i+m)*cols+j+n];
 						num++;	 
 					}
 
-- 
2.43.0


From d8dfa749532570ed6d3a0521d0b6b259d6ae0658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 054/121] fix: gaussian blur frees its kernels and its
 temporary

---
 modules/process/src/c_src/filter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index c3e6c78..641d067 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -320,6 +320,8 @@ void hypercv_gaussian_blur(simple_mat src_mat, simple_mat dst_mat, int ksize_wid
 	simple_mat kernel_mat_x = gaussian_kernel(ksize_width, sigma1, kdepth);
 	simple_mat kernel_mat_y = gaussian_kernel(ksize_height,sigma2, kdepth);
 	hypercv_gaussian_blur_with_kernel(src_mat, dst_mat, kernel_mat_x, kernel_mat_y, border_type);
+	delete_simple_mat(kernel_mat_x);
+	delete_simple_mat(kernel_mat_y);
 }
 
 /**
@@ -467,6 +469,7 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 			}
 		}
 	}
+	delete_simple_mat(temp_mat);
 }
 
 /**
-- 
2.43.0


From 8430f5bac3d46e2e4632e4780189accd16338786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 055/121] fix: integral accumulates its first row and column

---
 modules/process/src/c_src/filter.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 641d067..1f73079 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -501,10 +501,13 @@ void hypercv_integral(simple_mat src, simple_mat dst)
 	{
 		for(int j=0;j<cols;j++)
 		{
-			if(i==0||j==0)
-				dst_data[i*cols+j] = src_data[i*cols+j];
-			else
-				dst_data[i*cols+j] = dst_data[(i-1)*cols+j] + dst_data[i*cols+j-1] + src_data[i*cols+j]-dst_data[(i-1)*cols+j-1];	
+			dst_data[i*cols+j] = src_data[i*cols+j];
+			if(i>0)
+				dst_data[i*cols+j] += dst_data[(i-1)*cols+j];
+			if(j>0)
+				dst_data[i*cols+j] += dst_data[i*cols+j-1];
+			if(i>0&&j>0)
+				dst_data[i*cols+j] -= dst_data[(i-1)*cols+j-1];	
 		}
 	}
 }
-- 
2.43.0


From 716ca961c5e982fa57540d0a917d1c7e8bb745c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 056/121] fix: flips move whole elements of every data type

---
 modules/process/src/c_src/GeometricTransformation.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 5ec5845..385b84c 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -13,7 +13,9 @@ void simple_mat_flip_horizontal(simple_mat src_mat,simple_mat dst_mat)
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
 	int channels = src_mat->channels;
-	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels,"src_mat size != dst_mat size");
+	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels && src_mat->data_type == dst_mat->data_type,"src_mat size != dst_mat size");
+
+	channels = channels * get_elemsize(src_mat->data_type);
 
 	unsigned char* src_data = (unsigned char*)src_mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
@@ -32,7 +34,9 @@ void simple_mat_flip_vertical(simple_mat src_mat,simple_mat dst_mat)
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
 	int channels = src_mat->channels;
-	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels,"src_mat size != dst_mat size");
+	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels && src_mat->data_type == dst_mat->data_type,"src_mat size != dst_mat size");
+
+	channels = channels * get_elemsize(src_mat->data_type);
 
 	unsigned char* src_data = (unsigned char*)src_mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
-- 
2.43.0


From db3b7be53446996e0076f173823601afc4c65007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 057/121] fix: pyramids free their temporaries

---
 modules/process/src/c_src/GeometricTransformation.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 385b84c..cd0c302 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -104,6 +104,7 @@ void hypercv_pyramid_down(simple_mat src, simple_mat dst)
 			for(int m=0;m<channels;m++)
 			  dst_data[i*dst_cols*channels+j*channels+m] = tmp_data[2*i*src->cols*channels+2*j*channels+m];
 	
+	delete_simple_mat(tmp);
 }
 
 void hypercv_pyramid_up(simple_mat src, simple_mat dst)
@@ -152,6 +153,8 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 		kernel_data[i]=kernel_data[i]*2;
 
 	hypercv_gaussian_blur_with_kernel(tmp,dst,kernel,kernel,1);
+	delete_simple_mat(tmp);
+	delete_simple_mat(kernel);
 }
 
 
-- 
2.43.0


From 922dec9f179179768274e83321c61c8993889ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 058/121] fix: hyper_mat_rotate rotates about the image center
 and stays inside its result

---
 .../src/c_src/GeometricTransformation.c       | 35 +++++++------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index cd0c302..367f466 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -167,30 +167,17 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 	double c = cos(theta);
 	double s = sin(theta);
 
-	int h = (mat->lines+1)/2;
-	int w = (mat->samples+1)/2;
-
-    float x0 = - w * c - h * s;
-	float y0 = -h * c + w * s;
-	float x1 = w * c - h * s;
-	float y1 = -h * c - w * s;
-	float x2 = w * c + h * s;
-	float y2 = h * c - w * s;
-	float x3 = -w * c + h * s;
-	float y3 = h * c + w * s;
-	float width1 = fabs(x2 - x0);
-	float width2 = fabs(x3 - x1);
-	float height1 = fabs(y2 - y0);
-	float height2 = fabs(y3 - y1);
-
-	int width = (width1 > width2 ? width1 : width2);
-	int height = (height1 > height2 ? height1 : height2);
+	//center of the image
+	double h = mat->lines/2.0;
+	double w = mat->samples/2.0;
+
+	//bounding box of the rotated image, the tolerance absorbs rounding of c and s
+	int width = ceil(2*(fabs(w*c) + fabs(h*s)) - 1e-3);
+	int height = ceil(2*(fabs(w*s) + fabs(h*c)) - 1e-3);
 
 	hyper_mat dst_mat = create_hyper_mat_with_data(width, height, mat->bands,mat->data_type, mat->interleave, NULL, mat->wavelength);
 
-	int di = x0 + width / 2;
-	int dj = y0 + height / 2;
-	
+
 	unsigned char* src_data = (unsigned char*)mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
 	
@@ -200,8 +187,10 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 	{
 		for(int j=0;j<mat->samples;j++)
 		{
-            int x = i * c + j * s + di;
-			int y = j * c - i * s + dj;
+            int x = floor((i+0.5-h) * c + (j+0.5-w) * s + height/2.0);
+			int y = floor((j+0.5-w) * c - (i+0.5-h) * s + width/2.0);
+			if(x < 0 || x >= height || y < 0 || y >= width)
+				continue;
 			int dstOft = (x * width + y) * mat->bands * elem_size;
 			int srcOft = (i * mat->samples + j) * mat->bands * elem_size;
 			unsigned char* src = src_data + srcOft;
-- 
2.43.0


From a6fb6ecdb3b512655f65732d186b8a5d4fe0bb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 059/121] fix: cal_edge_signal_energy overwrote the channels
 and data type of its input instead of checking them

---
 modules/algorithm/src/EdgeSignalEnergy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/EdgeSignalEnergy.c b/modules/algorithm/src/EdgeSignalEnergy.c
index 7ffdee2..d1d5c83 100644
--- a/modules/algorithm/src/EdgeSignalEnergy.c
+++ b/modules/algorithm/src/EdgeSignalEnergy.c
@@ -9,8 +9,8 @@
 float cal_edge_signal_energy(simple_mat mat)
 {
 	hypercv_assert(mat!=NULL, "input mat cannot be NULL");
-	hypercv_assert(mat->channels = 1,"only use in grayimage");
-	hypercv_assert(mat->data_type = 1,"data_type == 1");
+	hypercv_assert(mat->channels == 1,"only use in grayimage");
+	hypercv_assert(mat->data_type == 1,"data_type == 1");
   
 	float opt1[9] = {-1,-1,1,-1,4,-1,1,-1,-1};
 	float opt2[9] = {1,-1,-1,-1,4,-1,-1,-1,1};
-- 
2.43.0


From 116f1d19e5c0a22fe81c8cb059adc6f423937868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 060/121] fix: HisEqualization accumulated already scaled
 histogram values

---
 modules/algorithm/src/HisEqualization.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index 5b45383..1ff669f 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -27,10 +27,10 @@ void HisEqualization( simple_mat src_mat,simple_mat dst_mat)
 		hist[data[i]]+=1;
 	
 	for(int i=1; i<256; i++)
-	{
 		hist[i] += hist[i-1];
-		hist[i] = hist[i]*255/(rows*cols);
-	}
+
+	for(int i=0; i<256; i++)
+		hist[i] = (long long)hist[i]*255/(rows*cols);
 	
 	for(int i=0; i<rows*cols; i++)
 		dst_data[i] = hist[data[i]];
-- 
2.43.0


From 4aa2a36f5280310c10ea06ebe52b36d21048adc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 061/121] fix: hyper_mat_linear_tension stretched negative,
 constant and large offset bands wrongly

---
 modules/algorithm/src/HisEqualization.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index 1ff669f..50b037b 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -44,6 +44,8 @@ void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 	int bands = bsq_mat -> bands;
 	hypercv_assert(dst_mat->samples == samples&& dst_mat->lines == lines&&dst_mat->bands == bands,"src mat size == dst mat size");
 	hypercv_assert(dst_mat ->data_type ==1,"dst data type char");
+	hypercv_assert(bsq_mat ->data_type ==4,"src data type float");
+	hypercv_assert(cmpstr(dst_mat->interleave,"bsq")==1,"dst mat must be bsq");
 	float * srcdata = (float*)bsq_mat -> data;
 	unsigned char* dstdata = (unsigned char*) dst_mat->data;
 	float maxdata = 0.0;
@@ -53,8 +55,8 @@ void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 	int res=0;
 	for(int k=0; k<bands; k++)
 	{
-		maxdata = 0.0;
-		mindata = 1000000000;
+		maxdata = srcdata[k*samples*lines];
+		mindata = srcdata[k*samples*lines];
 		tmp =0.0;
 		res =0;
 		for(int i=0; i<lines;i++)
@@ -68,14 +70,13 @@ void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 					mindata = tmp;
 			}
 		}
-		float m = 255/(maxdata-mindata);
-		float n = -mindata*255/(maxdata-mindata);
+		float m = maxdata>mindata ? 255/(maxdata-mindata) : 0;
 		for(int i=0; i<lines;i++)
 		{
 			for(int j=0; j<samples; j++)
 			{
 				tmp = srcdata[k*samples*lines+i*samples+j];
-				res = (int)(tmp*m+n);
+				res = (int)((tmp-mindata)*m);
 				if(res<=0)
 				{
 					if (tmp==0)
-- 
2.43.0


From d7579c321497920254a8ddecba02e7b1219a6977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 062/121] fix: hyper_mat_cem passed the operands of its matrix
 products in the wrong order

---
 modules/algorithm/src/cem.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/algorithm/src/cem.c b/modules/algorithm/src/cem.c
index 40092db..b9cfea9 100644
--- a/modules/algorithm/src/cem.c
+++ b/modules/algorithm/src/cem.c
@@ -43,9 +43,9 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 	float* fir2 = (float*)malloc(bands * sizeof(float));
 	float* fir3 = (float*)malloc(sizeof(float));
 
-	MulMatrix_float(fir1, invdata, spectral, bands, bands, 1);
-	MulMatrix_float(fir2, spectral, invdata, 1, bands, bands);
-	MulMatrix_float(fir3, fir2, spectral, 1, bands, 1);
+	MulMatrix_float(invdata, spectral, fir1, bands, bands, 1);
+	MulMatrix_float(spectral, invdata, fir2, 1, bands, bands);
+	MulMatrix_float(fir2, spectral, fir3, 1, bands, 1);
 
 	for(int i=0; i<bands; i++)
 		fir1[i] = fir1[i]/fir3[0];
@@ -53,7 +53,7 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 	simple_mat res = create_simple_mat(lines, samples, data_type, 1);
 	float* res_data = (float*)res->data;
 
-	MulMatrix_float(res_data, t_data, fir1, samples*lines,bands, 1);
+	MulMatrix_float(t_data, fir1, res_data, samples*lines,bands, 1);
 
 	delete_simple_mat(src);
 	delete_simple_mat(t);
-- 
2.43.0


From e60ca7a0a586e8281f9ef6b9364467a8ef9ab8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 063/121] fix: hypercv_k_means ignored centres moving
 backwards, moved empty clusters to the origin and leaked its gray image

---
 modules/algorithm/src/cluster.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 14977a3..a162214 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -88,7 +88,9 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 			v2[k].x = v2[k].x / num[k];
 		    v2[k].y = v2[k].y / num[k];
 			}
-			if(v2[k].x-v1[k].x > iter_threshold || v2[k].y-v1[k].y > iter_threshold)
+			else
+				v2[k] = v1[k];
+			if(abs(v2[k].x-v1[k].x) > iter_threshold || abs(v2[k].y-v1[k].y) > iter_threshold)
 				flag = 1;
 			v1[k].x = v2[k].x;
 			v1[k].y = v2[k].y;
@@ -101,4 +103,6 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 	}
 	free(v2);
 	free(num);
+	if(mat != src)
+		delete_simple_mat(mat);
 }
-- 
2.43.0


From 859cc4e0961e4bb7813c9fa4a8fc3a24cda73730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 064/121] fix: hypercv_magnitude read the imaginary part from
 the wrong pixel

---
 modules/algorithm/src/dft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index 4348a79..3ce9c41 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -244,7 +244,7 @@ void hypercv_magnitude(simple_mat re_mat, simple_mat im_mat, simple_mat dst_mat)
 	{
 		for(int j=0;j<cols;j++)
 		{
-			dst_data[i*cols+j] = sqrt(pow(re_data[i*cols+j],2)+pow(im_data[i*cols*j],2));
+			dst_data[i*cols+j] = sqrt(pow(re_data[i*cols+j],2)+pow(im_data[i*cols+j],2));
 		}
 	}
 }
-- 
2.43.0


From c4a0416c67284a89ee732ed7e1d112a3b24ee16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 065/121] fix: the inverse dft did not undo the forward dft

---
 modules/algorithm/src/dft.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index 3ce9c41..ab2a60d 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -189,7 +189,7 @@ void hypercv_idft_uchar(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat
 				}
 			}
 
-			dst_data[i*cols+j] =saturate_cast_float2uchar(real / sqrt(rows*cols));
+			dst_data[i*cols+j] =saturate_cast_float2uchar(real / (rows*cols));
 		}
 	}
 }
@@ -222,7 +222,7 @@ void hypercv_idft_ushort(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_ma
 				}
 			}
 
-			dst_data[i*cols+j] =saturate_cast_float2uchar(real / sqrt(rows*cols));
+			dst_data[i*cols+j] =saturate_cast_float2uchar(real / (rows*cols));
 		}
 	}
 }
-- 
2.43.0


From 66aa50349c2552442592b2a6b66bf5326bff327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 066/121] fix: hypercv_idft_ushort clipped its result to 255

---
 modules/algorithm/src/dft.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index ab2a60d..3784b52 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -222,7 +222,8 @@ void hypercv_idft_ushort(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_ma
 				}
 			}
 
-			dst_data[i*cols+j] =saturate_cast_float2uchar(real / (rows*cols));
+			real = real / (rows*cols);
+			dst_data[i*cols+j] = real > 65535 ? 65535 : real < 0 ? 0 : HYPERCV_ROUND(real);
 		}
 	}
 }
-- 
2.43.0


From 89a2c9ada630523cfa8d8210e8204b55d1e53cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 067/121] fix: hypercv_normalize_float rounded its result to
 0..255, ignored negative peaks and limited the value range

---
 modules/algorithm/src/normalize.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index d025d63..87dfae1 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -90,7 +90,6 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 	int data_type = src->data_type;
 	int channels = src->channels;
 
-//only uchar//todo 
     float* src_data = (float*)src->data;
 	float* dst_data = (float*)dst->data;
 
@@ -100,7 +99,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] =saturate_cast_float2uchar(src_data[i]*alpha/L1_norm);
+			dst_data[i] =src_data[i]*alpha/L1_norm;
 	}
 	if(norm_type == NORM_L2)
 	{
@@ -108,20 +107,20 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols;i++ )
 			L2_norm += src_data[i]*src_data[i];
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/sqrt(L2_norm));
+			dst_data[i] = src_data[i]*alpha/sqrt(L2_norm);
 	}
 
 	if(norm_type == NORM_INF)
 	{
 		float INF_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
-			INF_norm = src_data[i]>INF_norm?src_data[i]:INF_norm;
+			INF_norm = fabs(src_data[i])>INF_norm?fabs(src_data[i]):INF_norm;
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/INF_norm);
+			dst_data[i] = src_data[i]*alpha/INF_norm;
 	}
 	if(norm_type == NORM_MINMAX)
 	{
-		float maxsrc=-1000000,minsrc=1000000;
+		float maxsrc=src_data[0],minsrc=src_data[0];
 		for(int i=0;i<rows*cols;i++)
 		{
 			maxsrc = maxsrc>src_data[i]?maxsrc:src_data[i];
@@ -131,7 +130,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		float a = alpha>beta?beta:alpha;
 
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar((src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a);
+			dst_data[i] = (src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a;
 	}
 }
 
-- 
2.43.0


From 1e27ebee28718b455111e72d3dc4b67fd6c80b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 068/121] fix: hypercv_match_shapes leaked the moments it
 compares

---
 modules/algorithm/src/shapematch.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/algorithm/src/shapematch.c b/modules/algorithm/src/shapematch.c
index 5e12322..8af8b4b 100644
--- a/modules/algorithm/src/shapematch.c
+++ b/modules/algorithm/src/shapematch.c
@@ -23,9 +23,7 @@ static double calc_similar_hu(double* hu1, double* hu2)
 
 void calc_hu_moment(double* hu,simple_mat mat)
 {
-	if(hu==NULL)
-		hu = (double*)malloc(7*sizeof(double));
-
+	hypercv_assert(hu!=NULL,"output moments cannot be NULL");
 	hypercv_assert(mat!=NULL,"input mat cannot be NULL");
 
 	int cols = mat->cols;
@@ -114,6 +112,8 @@ double hypercv_match_shapes(simple_mat mat1, simple_mat mat2)
 
 	double res=0;
 	res = calc_similar_hu(hu1,hu2);
+	free(hu1);
+	free(hu2);
 	return res;
 }
 
-- 
2.43.0


From fd15c4bc48c7e56ce17b088108bb73c46cd571e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 069/121] fix: hyper_mat_pca centred pixels instead of bands,
 accepted any data type and leaked memory

---
 modules/algorithm/src/pca.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index cbe71c5..09c122d 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -6,27 +6,31 @@
 #include "precomp.h"
 //________private function________________
 
-static void cal_covariance_matrix(simple_mat x, simple_mat mean_mat,simple_mat res_mat)
+static void cal_covariance_matrix(simple_mat x, simple_mat res_mat)
 {//only for float
 
-	int samples = mean_mat->cols;
-	int lines = mean_mat->rows;
+	int pixels = x->rows;
 	int bands = x->cols;
 
 	float* x_data = (float*)x->data;
-	float* mean_data = (float*)mean_mat->data;
 	float* res_data = (float*)res_mat->data;
 	
-	for(int i=0;i<samples*lines;i++)
-		for (int j=0;j<bands;j++)
-			 x_data[i*bands+j] -= mean_data[i];
+	for (int j=0;j<bands;j++)
+	{
+		double mean = 0;
+		for(int i=0;i<pixels;i++)
+			mean += x_data[i*bands+j];
+		mean /= pixels;
+		for(int i=0;i<pixels;i++)
+			x_data[i*bands+j] -= mean;
+	}
 
-	simple_mat t = create_simple_mat(bands,samples*lines,4,1);
+	simple_mat t = create_simple_mat(bands,pixels,4,1);
     simple_mat_transport(t,x);
 
 	float* t_data = (float*)t->data;
 	
-	MulMatrix_float(t_data,x_data,res_data,bands,lines*samples,bands);
+	MulMatrix_float(t_data,x_data,res_data,bands,pixels,bands);
 	
 	delete_simple_mat(t);
 }
@@ -36,17 +40,14 @@ static void cal_covariance_matrix(simple_mat x, simple_mat mean_mat,simple_mat r
 void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 {
 
-	hypercv_assert(bip_mat->data_type = 4,"only use in float");
+	hypercv_assert(bip_mat->data_type == 4,"only use in float");
 	int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
-//计算平均图像	
-	simple_mat mean_mat = create_simple_mat(lines,samples,4,1);
-	hyper_mat_mean(bip_mat,mean_mat);
 //计算自相关矩阵
 	simple_mat reshape_mat = reshape_hypermat_2_simplemat(bip_mat,samples*lines,bands);
 	simple_mat cov_mat = create_simple_mat(bands,bands,4,1);
-	cal_covariance_matrix(reshape_mat,mean_mat,cov_mat);
+	cal_covariance_matrix(reshape_mat,cov_mat);
 
 	simple_mat temp = simple_mat_copy(cov_mat);
 	simple_mat q_mat = create_simple_mat(cov_mat->rows,cov_mat->cols,4,1);
@@ -77,7 +78,7 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 
 	TransMatrix_float(eigen_vector_q->data,transport_eigen_vector_q->data,eigen_vector_q->rows,eigen_vector_q->cols);
 */
-	delete_simple_mat(mean_mat);
+	free(evalue);
 	delete_simple_mat(cov_mat);
 	delete_simple_mat(reshape_mat);
 	delete_simple_mat(r_mat);
-- 
2.43.0


From 2382f80d0bb63a0abf997b34110cc07790340581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 070/121] fix: draw_POINT swapped red and blue

---
 modules/highgui/src/draw.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/highgui/src/draw.c b/modules/highgui/src/draw.c
index bae668a..76a8643 100644
--- a/modules/highgui/src/draw.c
+++ b/modules/highgui/src/draw.c
@@ -31,9 +31,9 @@ void draw_POINT(simple_mat src_mat, simple_mat dst_mat, POINT* v, int point_num,
 				{
 					if(channels == 3)
 					{
-						dst_data[(y+j)*cols*channels+(x+i)*channels] = color.b;	
+						dst_data[(y+j)*cols*channels+(x+i)*channels] = color.r;	
 						dst_data[(y+j)*cols*channels+(x+i)*channels+1] = color.g;
-						dst_data[(y+j)*cols*channels+(x+i)*channels+2] = color.r;
+						dst_data[(y+j)*cols*channels+(x+i)*channels+2] = color.b;
 					}
 					else if(channels == 1)
 						dst_data[(y+j)*cols+(x+i)] = color.r;	
-- 
2.43.0


From 3289f9c336065c6c3e8b1fcd969e3117b0c0a283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 071/121] fix: draw_line drew the mirrored, endless line,
 missed vertical lines and left gray images unchanged

---
 modules/highgui/src/draw.c | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/modules/highgui/src/draw.c b/modules/highgui/src/draw.c
index 76a8643..1be6936 100644
--- a/modules/highgui/src/draw.c
+++ b/modules/highgui/src/draw.c
@@ -59,29 +59,33 @@ void draw_line(simple_mat src_mat, simple_mat dst_mat, POINT pt1, POINT pt2, RGB
 
 	memcpy(dst_data,src_data,rows*cols*channels);	
 
-	float k = (float)(pt2.x-pt1.x)/(pt2.y-pt1.y);
-	float b = (float)pt1.y-k*pt1.x;
+	int dx = pt2.x-pt1.x;
+	int dy = pt2.y-pt1.y;
+	int steps = abs(dx)>abs(dy) ? abs(dx) : abs(dy);
 
-	for(int i=0;i<rows;i++)
+	for(int s=0;s<=steps;s++)
 	{
-		for(int j=0;j<cols;j++)
+		int i = pt1.y;
+		int j = pt1.x;
+		if(steps != 0)
 		{
-			if(i==(int)(j*k+b+0.5))
+			i += (int)floor((double)dy*s/steps+0.5);
+			j += (int)floor((double)dx*s/steps+0.5);
+		}
+		if(i<0||i>=rows)
+			continue;
+		for(int t=-thickness/2;t<=thickness/2;t++)
+		{
+			if(j+t>=0&&j+t<cols)
 			{
-				for(int t=-thickness/2;t<=thickness/2;t++)
+				if(channels ==3)
 				{
-					if(j+t>=0&&j+t<cols)
-					{
-						if(channels ==3)
-						{
-							dst_data[i*cols*channels+(j+t)*channels] = color.r;
-							dst_data[i*cols*channels+(j+t)*channels+1] = color.g;
-							dst_data[i*cols*channels+(j+t)*channels+2] = color.b;
-						}
-						else if(channels == 1)
-							dst_data[i*cols+(j+t)] == color.r;
-					}
+					dst_data[i*cols*channels+(j+t)*channels] = color.r;
+					dst_data[i*cols*channels+(j+t)*channels+1] = color.g;
+					dst_data[i*cols*channels+(j+t)*channels+2] = color.b;
 				}
+				else if(channels == 1)
+					dst_data[i*cols+(j+t)] = color.r;
 			}
 		}
 	}
-- 
2.43.0


From 84477785d88724d9ba169da0cc7ae7c6b881e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 072/121] fix: HyMat constructors read uninitialised members,
 the default one always exited

---
 modules/core/include/cxx_include/hypermat.hpp | 43 +++++++++----------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index d940d16..65367a2 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -27,19 +27,19 @@ namespace hypercv
 			/* 
 			 * HYPER_MAT 
 			 * */
-			int          lines;
-			int          samples;
-			int          bands;
-			int          dataType;
-			int          format;
+			int          lines    = 0;
+			int          samples  = 0;
+			int          bands    = 0;
+			int          dataType = 0;
+			int          format   = HYPERCV_BSQ;
 			//todo 修改所有format 改成 int format， HYPERCV_BIL HYPERCV_BIP HYPERCV_BSQ 
 
-			char         interleave[3];
-			void*        data;
-			float*       wavelength;
+			char         interleave[3] = {'b','s','q'};
+			void*        data       = NULL;
+			float*       wavelength = NULL;
 
-			int          elemSize;
-			long int     dataSize;
+			int          elemSize = 0;
+			long int     dataSize = 0;
 
 			HyMat();
 
@@ -82,7 +82,6 @@ namespace hypercv
 
 	inline HyMat::HyMat()
 	{
-		create(0, 0, 0, HYPERCV_UCHAR, HYPERCV_BSQ);
 	}
 
 	inline HyMat::HyMat(int _samples, int _lines, int _bands, int _dataType, int _format)
@@ -121,17 +120,17 @@ namespace hypercv
 	inline void HyMat::create(int _samples, int _lines, int _bands, int _dataType, int _format, void* _data, float* _wavelength)
 	{
 
-		hypercv_assert(_samples > 0 && _lines > 0 && bands > 0, "HyMat size > 0");
-		hypercv_assert(dataType == HYPERCV_UCHAR || 
-				dataType == 2 ||
-				dataType == 3 ||
-				dataType == 4 ||
-				dataType == 5 ||
-				dataType == 12 ||
-				dataType == 13 ||
-				dataType == 14 ||
-				dataType == 15 , " data type error");
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_samples > 0 && _lines > 0 && _bands > 0, "HyMat size > 0");
+		hypercv_assert(_dataType == HYPERCV_UCHAR || 
+				_dataType == 2 ||
+				_dataType == 3 ||
+				_dataType == 4 ||
+				_dataType == 5 ||
+				_dataType == 12 ||
+				_dataType == 13 ||
+				_dataType == 14 ||
+				_dataType == 15 , " data type error");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if(data)
 			release();
-- 
2.43.0


From 1ba4e3a4e4e465ffec7c2bebbfd7e816a68f61c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 073/121] fix: HyMat computes its size without int overflow

---
 modules/core/include/cxx_include/hypermat.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 65367a2..4f5e055 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -161,13 +161,14 @@ namespace hypercv
 		}
 
 		elemSize  = get_elemsize(dataType);
-		dataSize  = samples * lines * bands * elemSize;
+		dataSize  = (long int)samples * lines * bands * elemSize;
 
 		if(_data)
 			data = _data;
 		else 
 		{
 			data = (void*)malloc(dataSize);
+			hypercv_assert(data != NULL, "fail to allocate memory for HyMat");
 			memset(data, 0, dataSize);
 		}
 
@@ -176,6 +177,7 @@ namespace hypercv
 		else
 		{
 			wavelength = (float*)malloc(bands*sizeof(float));
+			hypercv_assert(wavelength != NULL, "fail to allocate memory for HyMat");
 			memset(wavelength, 0, bands*sizeof(float));
 		}	
 	}
@@ -255,7 +257,7 @@ namespace hypercv
 			return;
 			printf("can not open files\n");
 		}
-		fwrite(data, elemSize, samples * lines * bands, _fp);
+		fwrite(data, elemSize, (long int)samples * lines * bands, _fp);
 		this->writeHdr(filePath);
 		fclose(_fp);
 
-- 
2.43.0


From a247574c672c13f44924c3e7e08bb3e5616ef25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 074/121] fix: HyMat convertTo rejects unknown formats instead
 of copying from uninitialised indexes

---
 modules/core/include/cxx_include/hypermat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 4f5e055..5483476 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -361,7 +361,7 @@ namespace hypercv
 
 	inline void HyMat::convertTo(int _format)
 	{
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 		
 		if(_format == format)
 			return;
-- 
2.43.0


From 0429c8562c85b1c2ae803a1b7f539e96c7db406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 075/121] fix: HyMat range rejects ranges outside the mat
 instead of reading past it

---
 modules/core/include/cxx_include/hypermat.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 5483476..4b6e4aa 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -476,6 +476,7 @@ namespace hypercv
 	inline HyMat HyMat::range(int startRow, int startCol, int startBand, int endRow, int endCol, int endBand)
 	{
 		hypercv_assert(startCol<endCol && startRow<endRow && startBand<endBand, "start col & start row & start band must < end col & end row & end band");
+		hypercv_assert(startCol>=0 && startRow>=0 && startBand>=0 && endCol<=samples && endRow<=lines && endBand<=bands, "range must be inside the HyMat");
 
 		int newSamples = endCol - startCol;
 		int newLines = endRow - startRow;
-- 
2.43.0


From 2719bf704e27537cd6fcc01f5a48e67106bcd576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 076/121] fix: HyMat save writes its header next to the image
 and closes its dataset

---
 modules/core/include/cxx_include/hypermat.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 4b6e4aa..675a589 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -245,6 +245,8 @@ namespace hypercv
 
 		char** papszOptions = NULL;
 		dataSet = hDriver->Create(filePath, samples, lines, bands, DT, papszOptions);
+		if(dataSet != NULL)
+			GDALClose(dataSet);
 
 		//	dataSet->RasterIO(GF_Write, 0, 0, samples, lines, data, DT, )
 		//todo	
@@ -254,8 +256,8 @@ namespace hypercv
 		_fp = fopen(filePath, "wb");
 		if(_fp == NULL)
 		{
-			return;
 			printf("can not open files\n");
+			return;
 		}
 		fwrite(data, elemSize, (long int)samples * lines * bands, _fp);
 		this->writeHdr(filePath);
@@ -266,10 +268,19 @@ namespace hypercv
 	inline void HyMat::writeHdr(const char* filePath)
 	{
 		std::string path(filePath);
-		path = path.substr(0, path.find('.')) + "hdr";
+		size_t dot = path.rfind('.');
+		size_t slash = path.rfind('/');
+		if(dot != std::string::npos && (slash == std::string::npos || dot > slash))
+			path = path.substr(0, dot);
+		path += ".hdr";
 
 		FILE *fp;
 		fp = fopen(path.c_str(), "w");
+		if(fp == NULL)
+		{
+			printf("can not open files\n");
+			return;
+		}
 
 		fputs("ENVI\n", fp);
 		fputs("samples = ", fp); fprintf(fp, "%d\n", samples);
-- 
2.43.0


From 638a406ff5ea6a8ad29ecf4197f9315a9c1a4ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 077/121] fix: HyMat open keeps the wavelengths of the header,
 rejects short images and reads inside its buffers

---
 modules/core/include/cxx_include/hypermat.hpp | 52 ++++++-------------
 modules/core/src/cxx_src/hypermat.cpp         | 27 ++++++----
 2 files changed, 34 insertions(+), 45 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 675a589..00af4ee 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -12,7 +12,7 @@
 
 namespace hypercv
 {
-	extern void readHdr(const char* hdrPath, int& samples, int& lines, int& bands, int& dataType, int& format, float* wavelength);
+	extern void readHdr(const char* hdrPath, int& samples, int& lines, int& bands, int& dataType, int& format, float*& wavelength);
 
 #if gdal_switch
 #ifndef DATA_TYPE_2_GDAL_DATA_TYPE
@@ -314,46 +314,19 @@ namespace hypercv
 		if (empty() == 0)
 			release();
 
-		int _samples, _lines, _bands, _dataType;
-		readHdr(hdrPath, _samples, _lines, _bands, _dataType, format, wavelength);
+		int _samples = 0, _lines = 0, _bands = 0, _dataType = 0, _format = HYPERCV_BSQ;
+		float* _wavelength = NULL;
+		readHdr(hdrPath, _samples, _lines, _bands, _dataType, _format, _wavelength);
 
-		samples = _samples;
-		lines = _lines;
-		bands = _bands;
-		dataType = _dataType;
+		open(imagePath, _samples, _lines, _bands, _dataType, _format);
 
-		create();
-
-		FILE* _fp = NULL;
-		_fp = fopen(imagePath, "r");
-
-		if (_fp == NULL )
-		{
-			printf("can not open file\n");
-			return ;
-		}
-
-		fread(data, elemSize, dataSize, _fp);
-		fclose(_fp);
+		if (empty() == 0)
+			CopyWaveLength(_wavelength, bands);
+		free(_wavelength);
 	}
 
 	inline void HyMat::open(const char* path, int _samples, int _lines, int _bands, int _dataType, int _format)
 	{
-		hypercv_assert(_samples > 0 && _lines > 0 && bands > 0, "HyMat size > 0");
-		hypercv_assert(dataType == HYPERCV_UCHAR || 
-				dataType == 2 ||
-				dataType == 3 ||
-				dataType == 4 ||
-				dataType == 5 ||
-				dataType == 12 ||
-				dataType == 13 ||
-				dataType == 14 ||
-				dataType == 15 , " data type error");
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
-
-		if (empty() == 0)
-			release();
-
 		create(_samples, _lines, _bands, _dataType, _format);
 
 		FILE* _fp = NULL;
@@ -362,12 +335,19 @@ namespace hypercv
 		if (_fp == NULL )
 		{
 			printf("can not open file\n");
+			release();
 			return ;
 		}
 
-		fread(data, elemSize, dataSize, _fp);
+		long int readSize = fread(data, 1, dataSize, _fp);
 		fclose(_fp);
 
+		if (readSize != dataSize)
+		{
+			printf("the image file is smaller than its size\n");
+			release();
+		}
+
 	}
 
 	inline void HyMat::convertTo(int _format)
diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index 7b468a5..dfb0d0c 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -45,7 +45,7 @@ namespace hypercv
 	}
 #endif
 
-	void readHdr(const char* hdrPath, int& samples, int& lines, int& bands,  int& dataType, int& format, float* wavelength)
+	void readHdr(const char* hdrPath, int& samples, int& lines, int& bands,  int& dataType, int& format, float*& wavelength)
 	{
 		if(hdrPath == NULL)
 			return;
@@ -63,7 +63,8 @@ namespace hypercv
 		{  
 			const char* line = lineBuff.c_str();
 			char item[20];
-			sscanf(line, "%[^=]", item);
+			if (sscanf(line, "%19[^=]", item) != 1)
+				continue;
 
 			if (cmpstr(item, (char*)"samples") == 1)
 				sscanf(line, "%*[^=]=%d",&samples);
@@ -72,12 +73,16 @@ namespace hypercv
 				sscanf(line, "%*[^=]=%d",&lines);
 
 			else if (cmpstr(item, (char*)"bands") == 1)
+			{
 				sscanf(line, "%*[^=]=%d", &bands);
+				free(wavelength);
+				wavelength = NULL;
+			}
 
-			else if (cmpstr(item, (char*)"data") == 1)
+			else if (cmpstr(item, (char*)"data type") == 1)
 				sscanf(line, "%*[^=]=%d", &dataType);
 
-			else if (lineBuff.find("interleave")!=lineBuff.npos)
+			else if (cmpstr(item, (char*)"interleave") == 1)
 			{
 				if(lineBuff.find("q")!=lineBuff.npos)
 					format = HYPERCV_BSQ;
@@ -86,7 +91,7 @@ namespace hypercv
 				else 
 					format = HYPERCV_BIL;
 			}
-			else if (lineBuff.find("wavelength = {")!=lineBuff.npos)
+			else if (lineBuff.find("wavelength = {") == 0)
 			{	
 				string waveBuff, s;
 				stringstream ss;
@@ -96,15 +101,19 @@ namespace hypercv
 
 					startIndex = lineBuff.find('{')==lineBuff.npos?0:lineBuff.find('{')+1;
 					endIndex = lineBuff.find('}')==lineBuff.npos?lineBuff.size():lineBuff.find('}');
-					waveBuff += lineBuff.substr(startIndex,endIndex);
+					waveBuff += lineBuff.substr(startIndex,endIndex-startIndex);
 				}
 				while(lineBuff.find('}')==lineBuff.npos&&getline(file,lineBuff));
 				ss<<waveBuff;
-				for(int i=0;i<bands;i++)
+				free(wavelength);
+				wavelength = NULL;
+				if(bands > 0)
 				{
-					ss>>s;
-					wavelength[i] = atof(s.c_str());
+					wavelength = (float*)calloc(bands, sizeof(float));
+					hypercv_assert(wavelength != NULL, "malloc fail");
 				}
+				for(int i=0;i<bands&&getline(ss,s,',');i++)
+					wavelength[i] = atof(s.c_str());
 
 			}
 		}
-- 
2.43.0


From b2ad83902611290b38d17ed6f5752aae9b288126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 078/121] fix: read the wavelengths of a header wherever they
 stand and whatever the spacing

---
 modules/core/src/c_src/hypermat.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 7fd0044..7965285 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -69,6 +69,8 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 	char line[MAXLINE];
 	char item[MAXLINE];
 
+	char* wave_text = NULL;
+
 	int sampletemp = 0, linetemp = 0, bandtemp = 0, datatypetemp = 0;
 
 	while (fgets(line, MAXLINE, hdr_fp) != 0)
@@ -90,8 +92,6 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 		{
 			sscanf(line, "%*[^=]=%d", &bandtemp);
 			*bands = bandtemp;
-			free(*wavelength);
-			*wavelength = NULL;
 		}
 		else if (cmpstr(item, "data type") == 1)
 		{
@@ -102,7 +102,7 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 		{
 			sscanf(line, "%*[^=]= %c%c%c", &interleave[0],&interleave[1],&interleave[2]);
 		}
-		else if (cmpstr(line,"wavelength = {")==1)
+		else if (strncmp(item, "wavelength", 10) == 0 && item[10 + strspn(item + 10, " \t")] == '\0' && strchr(line, '{') != NULL)
 		{	
 			int len = strlen(strchr(line, '{') + 1);
 			char* w = (char*)malloc((len + 1)*sizeof(char));
@@ -122,18 +122,18 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 				w[len] = '\0';
 			}
 
-			free(*wavelength);
-			*wavelength = NULL;
-			if (bandtemp > 0)
-			{
-				float* wave = (float*)calloc(bandtemp, sizeof(float));
-				hypercv_assert(wave != NULL, "malloc fail");
-				read_wavelength(w, wave, bandtemp);
-				*wavelength = wave;
-			}
-			free(w); w = NULL;
+			free(wave_text);
+			wave_text = w;
 		}
 	}
+
+	if (wave_text != NULL && bandtemp > 0)
+	{
+		*wavelength = (float*)calloc(bandtemp, sizeof(float));
+		hypercv_assert(*wavelength != NULL, "malloc fail");
+		read_wavelength(wave_text, *wavelength, bandtemp);
+	}
+	free(wave_text);
 }
 
 /**
-- 
2.43.0


From 84c46302f31a607588bbc4a783d89f2f6cfe470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 079/121] fix: hypercv_atof of zero with a large exponent is
 zero, not NaN

---
 modules/process/src/c_src/datatypechange.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index 5470ed4..f267588 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -431,6 +431,9 @@ float hypercv_atof(const char *str)
 	for (; hasE && isdigit(*p) && exponential < 1000; p++)
 		exponential = 10 * exponential + *p - '0';
 
+	if (integerPart + decimalPart == 0)
+		return sign * 0.0;
+
 	return sign * (integerPart + decimalPart) * pow(10, exponentialSign * exponential);
 
 }
-- 
2.43.0


From c87ed49ad425bf517cb9b675ceca2d87f56fbde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 080/121] fix: accumulate the contrast ratio in double
 precision

---
 modules/core/src/c_src/simplemat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 8d9d96a..337a6ce 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -427,7 +427,7 @@ float simple_mat_contrast_ratio(simple_mat mat)
 
 	unsigned char* data = (unsigned char*)tmp->data;
 
-	float res =0.0;
+	double res =0.0;
 	for(int i=0; i<rows; i++)
 	{
 		for(int j=0; j<cols; j++)
@@ -443,7 +443,7 @@ float simple_mat_contrast_ratio(simple_mat mat)
 		}
 	}
 
-	res = res/(4*(cols-2)*(rows-2)+3*2*(rows-2)+3*2*(cols-2)+2*4);
+	res = res/(4.0*(cols-2)*(rows-2)+6.0*(rows-2)+6.0*(cols-2)+2*4);
 
 	if(tmp != mat)
 		delete_simple_mat(tmp);
-- 
2.43.0


From 8ed1e70b7f0dd64b68e51377f8679dc154d78f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 081/121] fix: expand pyramids with a mirrored border so that
 edges keep their brightness

---
 modules/process/src/c_src/GeometricTransformation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 367f466..ccd6f98 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -152,7 +152,7 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 	for(int i=0;i<5;i++)
 		kernel_data[i]=kernel_data[i]*2;
 
-	hypercv_gaussian_blur_with_kernel(tmp,dst,kernel,kernel,1);
+	hypercv_gaussian_blur_with_kernel(tmp,dst,kernel,kernel,BORDER_REFLECT_101);
 	delete_simple_mat(tmp);
 	delete_simple_mat(kernel);
 }
-- 
2.43.0


From b890b824bf8e9de2923c1f6939ab50dd98ca200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 082/121] fix: sum the spectral angle in double precision, so
 that faint and bright spectra have an angle

---
 modules/process/src/c_src/spectralprocess.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index fd58661..ecde2da 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -88,15 +88,15 @@ float spectral_angle_mapper(float * x, float * y, int length)
 {
 	hypercv_assert(x != NULL && y != NULL, "spectral angle mapper input must not be NULL");
 
-	float XY = 0.0, X = 0.0, Y = 0.0;
+	double XY = 0.0, X = 0.0, Y = 0.0;
 
 	float res = 0.0;
 
 	for (int i = 0; i<length; i++)
 	{
-		XY += fabs(x[i] * y[i]);
-		X += (x[i])*(x[i]);
-		Y += (y[i])*(y[i]);
+		XY += fabs((double)x[i] * y[i]);
+		X += (double)x[i]*x[i];
+		Y += (double)y[i]*y[i];
 	}
 
 	double cosine = XY / (sqrt(X) * sqrt(Y));
-- 
2.43.0


From 20820569535d5bcecdc0ad1c968912a10d835bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 083/121] fix: sum the Euclidean distance and the mean of a
 spectrum in double precision

---
 modules/process/src/c_src/spectralprocess.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index ecde2da..6704267 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -3,7 +3,7 @@
 //___________private_math_function_________
 float sp_average(float *x, int length)
 {
-	float sum = 0;
+	double sum = 0;
 	for (int i = 0; i<length; i++)
 		sum += x[i];
 	return sum / length;
@@ -145,10 +145,10 @@ float* read_spectrum_file(const char* sp_path, int length)
  **/
 float euclidean_distance(float * x, float * y, int length)
 {
-	float temp = 0;
+	double temp = 0;
 
 	for (int i = 0; i<length; i++)
-		temp += (x[i] - y[i])*(x[i] - y[i]);
+		temp += ((double)x[i] - y[i])*((double)x[i] - y[i]);
 
 	temp = sqrt(temp);
 
-- 
2.43.0


From eddb1adbe9c1dac4fbda7a86f76298ca8975046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 084/121] fix: choose the largest pivot when inverting a matrix

---
 modules/process/src/c_src/matrixprocess.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 713d7e5..798d67e 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -433,17 +433,19 @@ void invert_matrix_float(float* res, float* mat, int m)
 	int i,j,r;
 	for(i=0;i<m;i++)
 	{
-		if(mat[i*m+i] == 0.0)
+		//the largest element of the column is the pivot, a small one would lose precision
+		int pivot = i;
+		for(r=i+1;r<m;r++)
 		{
-			for(r=i+1;r<m;r++)
-			{
-				if(mat[r*m+i]!=0.0)
-					break;
-			}
-			if(r == m)
-				return;
-			swap_rows_float(mat,m,m,i,r);
-			swap_rows_float(res,m,m,i,r);
+			if(fabs(mat[r*m+i]) > fabs(mat[pivot*m+i]))
+				pivot = r;
+		}
+		if(mat[pivot*m+i] == 0.0)
+			return;
+		if(pivot != i)
+		{
+			swap_rows_float(mat,m,m,i,pivot);
+			swap_rows_float(res,m,m,i,pivot);
 		}
 		float scalar = 1.0/mat[i*m+i];
 		matrix_row_multi_scalar_float(mat,m,m,i,scalar);
-- 
2.43.0


From 92e5b776e32a45d2e3953c22b137bdfbab66ae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 085/121] fix: pivot when solving for an eigenvector, so that a
 zero diagonal does not give NaN

---
 modules/process/src/c_src/matrixprocess.c | 37 +++++++++++++++++++++--
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 798d67e..c6bd2af 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -280,6 +280,7 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m,int n)
 {
 	float* temp = (float*)malloc(m*n*sizeof(float));
+	int* order = (int*)malloc(n*sizeof(int));
 	float evalue ;
 
 	for(int count =0;count < n;count++)
@@ -290,8 +291,35 @@ void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m
 		for(int i=0;i<m;i++)
 			temp[i*n+i]-=evalue;
 
+		for(int i=0;i<n;i++)
+			order[i] = i;
+
 		for(int i=0;i<m-1;i++)
 		{
+			//the largest remaining element is the pivot, the order of the unknowns follows it
+			int pr = i, pc = i;
+			for(int r=i;r<m;r++)
+				for(int c=i;c<n;c++)
+					if(fabs(temp[r*n+c]) > fabs(temp[pr*n+pc]))
+					{
+						pr = r;
+						pc = c;
+					}
+			if(pr != i)
+				swap_rows_float(temp,m,n,i,pr);
+			if(pc != i)
+			{
+				for(int r=0;r<m;r++)
+				{
+					float t = temp[r*n+i];
+					temp[r*n+i] = temp[r*n+pc];
+					temp[r*n+pc] = t;
+				}
+				int t = order[i];
+				order[i] = order[pc];
+				order[pc] = t;
+			}
+
 			float coe = temp[i*n+i];
 			
 			for(int j=i;j<n;j++)
@@ -307,22 +335,25 @@ void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m
 		}
 
 		float sum1=1; 
-		eigenvector[(m-1)*n+count]=1;
+		eigenvector[order[m-1]*n+count]=1;
 		for(int i2= m-2; i2>=0; i2--)
 		{
 			float sum2 =0;
 			for(int j2 = i2+1; j2<n ;j2++)
-				sum2 += temp[i2*n+j2]*eigenvector[j2*n+count];
+				sum2 += temp[i2*n+j2]*eigenvector[order[j2]*n+count];
 
 			sum2 =-sum2/temp[i2*n+i2];
 			sum1 += sum2*sum2;
-			eigenvector[i2*n+count] = sum2;
+			eigenvector[order[i2]*n+count] = sum2;
 		}
 		sum1 = sqrt(sum1);
+		if(eigenvector[(m-1)*n+count] < 0)
+			sum1 = -sum1;
 		for(int i=0;i<m;i++)
 			eigenvector[i*n+count]/=sum1;
 	}
 	free(temp);
+	free(order);
 }
 
 void correlation_matrix_uchar(unsigned char* res, unsigned char* mat1, unsigned char* mat2, int l, int n, int m)
-- 
2.43.0


From 7254fcf4c495ab8fa4ad7073131e42091fe02709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 086/121] fix: iterate R*Q in the principal component
 transform, Q*R is the matrix itself

---
 modules/algorithm/src/pca.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index 09c122d..b31231b 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -56,7 +56,7 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 	for(int i=0;i<iteration;i++)//迭代qr分解
 	{
 		matrix_QR_float((float*)temp->data,(float*)q_mat->data,(float*)r_mat->data,bands);
-		MulMatrix_float((float*)q_mat->data,(float*)r_mat->data,(float*)temp->data,bands,bands,bands);
+		MulMatrix_float((float*)r_mat->data,(float*)q_mat->data,(float*)temp->data,bands,bands,bands);
 	}
 	//计算特征值，特征向量
 	float* evalue = (float*)malloc(bands*sizeof(float));
-- 
2.43.0


From 8413ee986ea9101109c925a7fa9b3b7ff026b49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 087/121] fix: compute Fourier sums in double precision

---
 modules/algorithm/src/dft.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index 3784b52..be1d5ec 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -45,7 +45,7 @@ void hypercv_dft_uchar(simple_mat src, simple_mat re_mat, simple_mat im_mat)
 	hypercv_assert(re_mat->data_type == 4&&im_mat->data_type == 4,"re_mat and im_mat data_type ==4");
 	hypercv_assert(src->channels == re_mat->channels&&src->channels == im_mat->channels&&src->channels == 1,"only gray image");
 
-	float re,im,temp;
+	double re,im,temp;
 
 	int rows = src->rows;
 	int cols = src->cols;
@@ -64,7 +64,7 @@ void hypercv_dft_uchar(simple_mat src, simple_mat re_mat, simple_mat im_mat)
 			{
 				for(int y=0;y<cols;y++)
 				{
-					temp = (float)i*x/(float)rows + (float)j*y/(float)cols;
+					temp = (double)i*x/rows + (double)j*y/cols;
 					re += src_data[x*cols+y]*cos(-2*PI*temp);
 					im += src_data[x*cols+y]*sin(-2*PI*temp);
 				}
@@ -82,7 +82,7 @@ void hypercv_dft_ushort(simple_mat src, simple_mat re_mat, simple_mat im_mat)
 	hypercv_assert(re_mat->data_type == 4&&im_mat->data_type == 4,"re_mat and im_mat data_type ==4");
 	hypercv_assert(src->channels == re_mat->channels&&src->channels == im_mat->channels&&src->channels == 1,"only gray image");
 
-	float re,im,temp;
+	double re,im,temp;
 
 	int rows = src->rows;
 	int cols = src->cols;
@@ -101,7 +101,7 @@ void hypercv_dft_ushort(simple_mat src, simple_mat re_mat, simple_mat im_mat)
 			{
 				for(int y=0;y<cols;y++)
 				{
-					temp = (float)i*x/(float)rows + (float)j*y/(float)cols;
+					temp = (double)i*x/rows + (double)j*y/cols;
 					re += src_data[x*cols+y]*cos(-2*PI*temp);
 					im += src_data[x*cols+y]*sin(-2*PI*temp);
 				}
@@ -127,7 +127,7 @@ void hypercv_dft_frespectrum(simple_mat src, simple_mat dst)
 	unsigned char* src_data = (unsigned char*)src->data;
 	unsigned char* dst_data = (unsigned char*)dst->data;
 
-	float re, im, temp;
+	double re, im, temp;
 	int move;
 
 	for(int i=0;i<rows;i++)
@@ -141,7 +141,7 @@ void hypercv_dft_frespectrum(simple_mat src, simple_mat dst)
 			{
 				for(int y=0;y<cols;y++)
 				{
-					temp = (float)i*x/(float)rows+(float)j*y/(float)cols;
+					temp = (double)i*x/rows + (double)j*y/cols;
 					move = (x+y)%2 == 0?1:-1;
 					re += src_data[x*cols+y]*cos(-2*PI*temp)*move;
 					im += src_data[x*cols+y]*sin(-2*PI*temp)*move;
@@ -174,7 +174,7 @@ void hypercv_idft_uchar(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat
 	float* im_data = (float*)im_mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
 
-	float real,temp;
+	double real,temp;
 	for(int i=0;i<rows;i++)
 	{
 		for(int j=0;j<cols;j++)
@@ -184,7 +184,7 @@ void hypercv_idft_uchar(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat
 			{
 				for (int y = 0; y < cols; y++)
 				{
-					temp = (float)i * x / (float)rows+ (float)j * y / (float)cols;
+					temp = (double)i * x / rows + (double)j * y / cols;
 					real += re_data[x*cols+y]*cos(2 * PI * temp) -im_data[x*cols+y] * sin(2 * PI * temp);
 				}
 			}
@@ -206,7 +206,7 @@ void hypercv_idft_ushort(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_ma
 	float* im_data = (float*)im_mat->data;
 	unsigned short* dst_data = (unsigned short*)dst_mat->data;
 
-	float real,temp;
+	double real,temp;
 	for(int i=0;i<rows;i++)
 	{
 		for(int j=0;j<cols;j++)
@@ -217,7 +217,7 @@ void hypercv_idft_ushort(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_ma
 			{
 				for (int y = 0; y < cols; y++)
 				{
-					temp = (float)i * x / (float)rows+ (float)j * y / (float)cols;
+					temp = (double)i * x / rows + (double)j * y / cols;
 					real += re_data[x*cols+y]*cos(2 * PI * temp) -im_data[x*cols+y] * sin(2 * PI * temp);
 				}
 			}
-- 
2.43.0


From 9b7a85fe7aa02c18408a2ce017b2f72bdcc1c2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 088/121] fix: give PI its full double precision

---
 modules/core/include/c_include/type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/include/c_include/type.h b/modules/core/include/c_include/type.h
index 17e4cc9..4bbac3b 100644
--- a/modules/core/include/c_include/type.h
+++ b/modules/core/include/c_include/type.h
@@ -223,7 +223,7 @@ static unsigned char saturate_cast_float2uchar(float value)
 ////////////////////////////////////////////////////
 
 #ifndef PI 
-#define PI 3.1415926
+#define PI 3.14159265358979323846
 #endif
 
 
-- 
2.43.0


From 23f5f60d3207c817ab27b37fdc447f0acf5c277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 089/121] fix: sum the norms of an image in double precision

---
 modules/algorithm/src/normalize.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index 87dfae1..0a1f2e0 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -41,7 +41,7 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 
 	if(norm_type == NORM_L1)
 	{
-		float L1_norm = 0;
+		double L1_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
 		for(int i=0;i<rows*cols;i++)
@@ -49,9 +49,9 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 	}
 	if(norm_type == NORM_L2)
 	{
-		float L2_norm = 0;
+		double L2_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
-			L2_norm += src_data[i]*src_data[i];
+			L2_norm += (double)src_data[i]*src_data[i];
 		for(int i=0;i<rows*cols;i++)
 			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/sqrt(L2_norm));
 	}
@@ -95,7 +95,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 
 	if(norm_type == NORM_L1)
 	{
-		float L1_norm = 0;
+		double L1_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
 		for(int i=0;i<rows*cols;i++)
@@ -103,9 +103,9 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 	}
 	if(norm_type == NORM_L2)
 	{
-		float L2_norm = 0;
+		double L2_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
-			L2_norm += src_data[i]*src_data[i];
+			L2_norm += (double)src_data[i]*src_data[i];
 		for(int i=0;i<rows*cols;i++)
 			dst_data[i] = src_data[i]*alpha/sqrt(L2_norm);
 	}
-- 
2.43.0


From 0b76d186b79423fde1752c5491fe5abb8beae3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 090/121] fix: stretch the largest sample of every band to 255

---
 modules/algorithm/src/HisEqualization.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index 50b037b..e5559d9 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -70,13 +70,13 @@ void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 					mindata = tmp;
 			}
 		}
-		float m = maxdata>mindata ? 255/(maxdata-mindata) : 0;
+		double range = (double)maxdata-mindata;
 		for(int i=0; i<lines;i++)
 		{
 			for(int j=0; j<samples; j++)
 			{
 				tmp = srcdata[k*samples*lines+i*samples+j];
-				res = (int)((tmp-mindata)*m);
+				res = range>0 ? (int)(((double)tmp-mindata)*255/range) : 0;
 				if(res<=0)
 				{
 					if (tmp==0)
-- 
2.43.0


From a2242da8ab57dfbff6c034fb7c413130660386de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 091/121] fix: sum the positions of a cluster in 64 bits

---
 modules/algorithm/src/cluster.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index a162214..3ea34d6 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -39,6 +39,10 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 	POINT* v2 = (POINT*)malloc(kind * sizeof(POINT)); 
 
 	int* num = (int*)malloc(kind * sizeof(int));	
+
+	//the sum of the positions of a large cluster exceeds an int
+	long long* sum_x = (long long*)calloc(kind, sizeof(long long));
+	long long* sum_y = (long long*)calloc(kind, sizeof(long long));
  
 	srand((unsigned)time(NULL));
 
@@ -48,8 +52,6 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 		int y = rand() % rows;
 		v1[i].x = x;
 		v1[i].y = y;
-		v2[i].x = 0;
-		v2[i].y = 0;
 		num[i]=0;
 	}
 
@@ -75,8 +77,8 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 							min_index = k;
 						}
 					}
-					v2[min_index].x += j;
-					v2[min_index].y += i;
+					sum_x[min_index] += j;
+					sum_y[min_index] += i;
 					num[min_index] += 1;
 				}
 			}
@@ -85,8 +87,8 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 		{
 			if(num[k] != 0)
 			{
-			v2[k].x = v2[k].x / num[k];
-		    v2[k].y = v2[k].y / num[k];
+			v2[k].x = sum_x[k] / num[k];
+		    v2[k].y = sum_y[k] / num[k];
 			}
 			else
 				v2[k] = v1[k];
@@ -94,8 +96,8 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 				flag = 1;
 			v1[k].x = v2[k].x;
 			v1[k].y = v2[k].y;
-			v2[k].x = 0;
-			v2[k].y = 0;
+			sum_x[k] = 0;
+			sum_y[k] = 0;
 			num[k]  = 0;
 		}
 		if(flag == 0)
@@ -103,6 +105,8 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 	}
 	free(v2);
 	free(num);
+	free(sum_x);
+	free(sum_y);
 	if(mat != src)
 		delete_simple_mat(mat);
 }
-- 
2.43.0


From 4a822b7416253eb2db2a4bd94baa89a906de7612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 092/121] fix: sum the edge energy in double precision

---
 modules/algorithm/src/EdgeSignalEnergy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/EdgeSignalEnergy.c b/modules/algorithm/src/EdgeSignalEnergy.c
index d1d5c83..43522de 100644
--- a/modules/algorithm/src/EdgeSignalEnergy.c
+++ b/modules/algorithm/src/EdgeSignalEnergy.c
@@ -34,7 +34,7 @@ float cal_edge_signal_energy(simple_mat mat)
 
 	float* res_data = (float*)dst1->data;
 
-	float r = 0.0;
+	double r = 0.0;
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)
 			r+=pow(res_data[i*cols+j],2);
-- 
2.43.0


From 23cd83827bfa84cf12f5051f33fcf0b9f3a5ba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 093/121] fix: moment invariants reject images that are not
 8-bit gray

---
 modules/algorithm/src/shapematch.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/algorithm/src/shapematch.c b/modules/algorithm/src/shapematch.c
index 8af8b4b..31f918f 100644
--- a/modules/algorithm/src/shapematch.c
+++ b/modules/algorithm/src/shapematch.c
@@ -25,6 +25,7 @@ void calc_hu_moment(double* hu,simple_mat mat)
 {
 	hypercv_assert(hu!=NULL,"output moments cannot be NULL");
 	hypercv_assert(mat!=NULL,"input mat cannot be NULL");
+	hypercv_assert(mat->data_type == 1&&mat->channels == 1,"only use in grayimage");
 
 	int cols = mat->cols;
 	int rows = mat->rows;
-- 
2.43.0


From a00053681f21cb1a924bbd8f8c75cb81184e5b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 094/121] fix: sum the means of arrays in double precision

---
 modules/process/src/c_src/mathprocess.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/process/src/c_src/mathprocess.c b/modules/process/src/c_src/mathprocess.c
index 103a851..8bd3b7c 100644
--- a/modules/process/src/c_src/mathprocess.c
+++ b/modules/process/src/c_src/mathprocess.c
@@ -28,7 +28,7 @@ double mean_double(double* t,int len)
  **/
 float mean_uint(unsigned int * t,int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
@@ -42,7 +42,7 @@ float mean_uint(unsigned int * t,int len)
  **/
 float mean_short(short *t, int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
@@ -56,7 +56,7 @@ float mean_short(short *t, int len)
  **/
 float mean_ushort(unsigned short* t, int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
@@ -70,7 +70,7 @@ float mean_ushort(unsigned short* t, int len)
  **/
 float mean_float(float* t, int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
@@ -84,7 +84,7 @@ float mean_float(float* t, int len)
  **/
 float mean_uchar(unsigned char* t, int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
@@ -98,7 +98,7 @@ float mean_uchar(unsigned char* t, int len)
  **/
 float mean_char(char* t, int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
@@ -112,7 +112,7 @@ float mean_char(char* t, int len)
  **/
 float mean_int(int *t, int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
-- 
2.43.0


From 8d78444ca23f41d4a8cb911df321ee600681362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:47 +0000
Subject: [PATCH 095/121] fix: hyper_mat_pca checks layout and size of its mats
 instead of writing past the result

---
 modules/algorithm/src/pca.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index b31231b..87880ce 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -40,7 +40,10 @@ static void cal_covariance_matrix(simple_mat x, simple_mat res_mat)
 void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 {
 
-	hypercv_assert(bip_mat->data_type == 4,"only use in float");
+	hypercv_assert(bip_mat!=NULL&&res_bip_mat!=NULL,"input mat cannot be NULL");
+	hypercv_assert(bip_mat->data_type == 4&&res_bip_mat->data_type == 4,"only use in float");
+	hypercv_assert(cmpstr(bip_mat->interleave,"bip") == 1&&cmpstr(res_bip_mat->interleave,"bip") == 1,"hyper mat interleave should be bip");
+	hypercv_assert(bip_mat->samples == res_bip_mat->samples&&bip_mat->lines == res_bip_mat->lines&&bip_mat->bands == res_bip_mat->bands,"input mat and result mat should have the same size");
 	int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
-- 
2.43.0


From e7c8de678514b42de5f6f1bebbcfd3e6448b7743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 096/121] fix: address cubes of more than 2^31 bytes with long
 indexes

---
 modules/core/include/cxx_include/hypermat.hpp | 12 +--
 modules/core/src/cxx_src/hypermat.cpp         | 44 +++++-----
 modules/process/src/c_src/imageprocess.c      | 86 +++++++++----------
 3 files changed, 72 insertions(+), 70 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 00af4ee..df0b428 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -360,6 +360,7 @@ namespace hypercv
 		char* srcData = (char*)data;
 		char* dstData = (char*)malloc(dataSize);
 
+		long int samples = this->samples, lines = this->lines, bands = this->bands;
 		long int dstIndex, srcIndex; 
 
 		for (int i=0;i<lines; i++)
@@ -469,16 +470,17 @@ namespace hypercv
 		hypercv_assert(startCol<endCol && startRow<endRow && startBand<endBand, "start col & start row & start band must < end col & end row & end band");
 		hypercv_assert(startCol>=0 && startRow>=0 && startBand>=0 && endCol<=samples && endRow<=lines && endBand<=bands, "range must be inside the HyMat");
 
-		int newSamples = endCol - startCol;
-		int newLines = endRow - startRow;
-		int newBands = endBand - startBand;
+		long int newSamples = endCol - startCol;
+		long int newLines = endRow - startRow;
+		long int newBands = endBand - startBand;
 
-		HyMat dst{newSamples, newLines, newBands, dataType, format};
+		HyMat dst{(int)newSamples, (int)newLines, (int)newBands, dataType, format};
 
 		char* srcData = (char*)data;
 		char* dstData = (char*)dst.data;
 
-		int srcIndex =0, dstIndex =0;
+		long int samples = this->samples, lines = this->lines, bands = this->bands;
+		long int srcIndex =0, dstIndex =0;
 
 		switch(format)
 		{
diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index dfb0d0c..18a6ffd 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -133,9 +133,9 @@ namespace hypercv
 		
 		HyMat dst{mat.samples, mat.lines, mat.bands, mat.dataType, HYPERCV_BSQ};
 
-		int samples = mat.samples;
-		int lines = mat.lines;
-		int bands = mat.bands;
+		long int samples = mat.samples;
+		long int lines = mat.lines;
+		long int bands = mat.bands;
 		int elemSize = mat.elemSize;
 
 		char* matData = (char*)mat.data;
@@ -174,9 +174,9 @@ namespace hypercv
 		
 		HyMat dst{mat.samples, mat.lines, mat.bands, mat.dataType, HYPERCV_BIP};
 
-		int samples = mat.samples;
-		int lines = mat.lines;
-		int bands = mat.bands;
+		long int samples = mat.samples;
+		long int lines = mat.lines;
+		long int bands = mat.bands;
 		int elemSize = mat.elemSize;
 
 		char* matData = (char*)mat.data;
@@ -214,12 +214,12 @@ namespace hypercv
 
 		hypercv_assert(mat.format == HYPERCV_BSQ, "input hyper mat's interleave must be bsq");
 
-		int samples   = mat.samples;
-		int lines     = mat.lines;
-		int bands     = mat.bands;
+		long int samples   = mat.samples;
+		long int lines     = mat.lines;
+		long int bands     = mat.bands;
 		int elemSize  = mat.elemSize;
 
-		HyMat dst{samples, lines, bands, mat.dataType, HYPERCV_BIL};
+		HyMat dst{mat.samples, mat.lines, mat.bands, mat.dataType, HYPERCV_BIL};
 
 		char* matData = (char*)mat.data;
 		char* dstData = (char*)dst.data;
@@ -258,12 +258,12 @@ namespace hypercv
 
 		hypercv_assert(mat.format == HYPERCV_BSQ, "input hyper mat's interleave must be bsq");
 
-		int samples   = mat.samples;
-		int lines     = mat.lines;
-		int bands     = mat.bands;
+		long int samples   = mat.samples;
+		long int lines     = mat.lines;
+		long int bands     = mat.bands;
 		int elemSize  = mat.elemSize;
 
-		HyMat dst{samples, lines, bands, mat.dataType, HYPERCV_BIP};
+		HyMat dst{mat.samples, mat.lines, mat.bands, mat.dataType, HYPERCV_BIP};
 
 		char* matData = (char*)mat.data;
 		char* dstData = (char*)dst.data;
@@ -301,12 +301,12 @@ namespace hypercv
 
         hypercv_assert(mat.format == HYPERCV_BIP, "input hyper mat's interleave must be bip");
 
-		int samples   = mat.samples;
-		int lines     = mat.lines;
-		int bands     = mat.bands;
+		long int samples   = mat.samples;
+		long int lines     = mat.lines;
+		long int bands     = mat.bands;
 		int elemSize  = mat.elemSize;
 
-		HyMat dst{samples, lines, bands, mat.dataType, HYPERCV_BSQ};
+		HyMat dst{mat.samples, mat.lines, mat.bands, mat.dataType, HYPERCV_BSQ};
 
 		char* matData = (char*)mat.data;
 		char* dstData = (char*)dst.data;
@@ -344,12 +344,12 @@ namespace hypercv
 
         hypercv_assert(mat.format == HYPERCV_BIP, "input hyper mat's interleave must be bip");
 
-		int samples   = mat.samples;
-		int lines     = mat.lines;
-		int bands     = mat.bands;
+		long int samples   = mat.samples;
+		long int lines     = mat.lines;
+		long int bands     = mat.bands;
 		int elemSize  = mat.elemSize;
 
-		HyMat dst{samples, lines, bands, mat.dataType, HYPERCV_BIL};
+		HyMat dst{mat.samples, mat.lines, mat.bands, mat.dataType, HYPERCV_BIL};
 
 		char* matData = (char*)mat.data;
 		char* dstData = (char*)dst.data;
diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 13c56dd..7e40172 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -89,9 +89,9 @@ hyper_mat bil2bsq(hyper_mat bil_mat)
 
 	hypercv_assert(cmpstr(bil_mat -> interleave,"bil") == 1, "input hyper mat's interleave must be bil");
 
-	int samples   = bil_mat -> samples;
-	int lines     = bil_mat -> lines;
-	int bands     = bil_mat -> bands;
+	long int samples   = bil_mat -> samples;
+	long int lines     = bil_mat -> lines;
+	long int bands     = bil_mat -> bands;
 	int elem_size = get_elemsize(bil_mat->data_type);
 
 	hyper_mat bsq_mat = create_hyper_mat(samples, lines, bands, bil_mat->data_type, "bsq");
@@ -99,7 +99,7 @@ hyper_mat bil2bsq(hyper_mat bil_mat)
 	char* bil_data = (char*)bil_mat -> data;
 	char* bsq_data = (char*)bsq_mat -> data;
 
-	unsigned int bil_index = 0, bsq_index = 0;
+	long int bil_index = 0, bsq_index = 0;
 
 	for (int k=0; k<bands; k++)
 	{
@@ -139,9 +139,9 @@ hyper_mat bil2bip(hyper_mat bil_mat)
 
 	hypercv_assert(cmpstr(bil_mat -> interleave,"bil") == 1, "input hyper mat's interleave must be bil");
 
-	int samples   = bil_mat -> samples;
-	int lines     = bil_mat -> lines;
-	int bands     = bil_mat -> bands;
+	long int samples   = bil_mat -> samples;
+	long int lines     = bil_mat -> lines;
+	long int bands     = bil_mat -> bands;
 	int elem_size = get_elemsize(bil_mat->data_type);
 
 	hyper_mat bip_mat = create_hyper_mat(samples, lines, bands, bil_mat->data_type, "bip");
@@ -149,7 +149,7 @@ hyper_mat bil2bip(hyper_mat bil_mat)
 	char* bil_data = (char*)bil_mat -> data;
 	char* bip_data = (char*)bip_mat -> data;
 
-	unsigned int bil_index = 0, bip_index = 0;
+	long int bil_index = 0, bip_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -189,9 +189,9 @@ hyper_mat bsq2bil(hyper_mat bsq_mat)
 
 	hypercv_assert(cmpstr(bsq_mat -> interleave,"bsq") == 1, "input hyper mat's interleave must be bsq");
 
-	int samples   = bsq_mat -> samples;
-	int lines     = bsq_mat -> lines;
-	int bands     = bsq_mat -> bands;
+	long int samples   = bsq_mat -> samples;
+	long int lines     = bsq_mat -> lines;
+	long int bands     = bsq_mat -> bands;
 	int elem_size = get_elemsize(bsq_mat->data_type);
 
 	hyper_mat bil_mat = create_hyper_mat(samples, lines, bands, bsq_mat->data_type, "bil");
@@ -199,7 +199,7 @@ hyper_mat bsq2bil(hyper_mat bsq_mat)
 	char* bsq_data = (char*)bsq_mat -> data;
 	char* bil_data = (char*)bil_mat -> data;
 
-	unsigned int bsq_index = 0, bil_index = 0;
+	long int bsq_index = 0, bil_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -239,9 +239,9 @@ hyper_mat bsq2bip(hyper_mat bsq_mat)
 
 	hypercv_assert(cmpstr(bsq_mat -> interleave,"bsq") == 1, "input hyper mat's interleave must be bsq");
 
-	int samples   = bsq_mat -> samples;
-	int lines     = bsq_mat -> lines;
-	int bands     = bsq_mat -> bands;
+	long int samples   = bsq_mat -> samples;
+	long int lines     = bsq_mat -> lines;
+	long int bands     = bsq_mat -> bands;
 	int elem_size = get_elemsize(bsq_mat->data_type);
 
 
@@ -250,7 +250,7 @@ hyper_mat bsq2bip(hyper_mat bsq_mat)
 	char* bsq_data = (char*)bsq_mat -> data;
 	char* bip_data = (char*)bip_mat -> data;
 
-	unsigned int bsq_index = 0, bip_index = 0;
+	long int bsq_index = 0, bip_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -290,9 +290,9 @@ hyper_mat bip2bsq(hyper_mat bip_mat)
 
 	hypercv_assert(cmpstr(bip_mat -> interleave,"bip") == 1, "input hyper mat's interleave must be bip");
 
-	int samples   = bip_mat -> samples;
-	int lines     = bip_mat -> lines;
-	int bands     = bip_mat -> bands;
+	long int samples   = bip_mat -> samples;
+	long int lines     = bip_mat -> lines;
+	long int bands     = bip_mat -> bands;
 	int elem_size = get_elemsize(bip_mat->data_type);
 
 	hyper_mat bsq_mat = create_hyper_mat(samples, lines, bands, bip_mat->data_type, "bsq");
@@ -300,7 +300,7 @@ hyper_mat bip2bsq(hyper_mat bip_mat)
 	char* bip_data = (char*)bip_mat -> data;
 	char* bsq_data = (char*)bsq_mat -> data;
 
-	unsigned int bsq_index = 0, bip_index = 0;
+	long int bsq_index = 0, bip_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -338,9 +338,9 @@ hyper_mat bip2bil(hyper_mat bip_mat)
 		return hyper_mat_copy(bip_mat);
 	hypercv_assert(cmpstr(bip_mat -> interleave,"bip") == 1, "input hyper mat's interleave must be bip");
 
-	int samples   = bip_mat -> samples;
-	int lines     = bip_mat -> lines;
-	int bands     = bip_mat -> bands;
+	long int samples   = bip_mat -> samples;
+	long int lines     = bip_mat -> lines;
+	long int bands     = bip_mat -> bands;
 	int elem_size = get_elemsize(bip_mat->data_type);
 
 	hyper_mat bil_mat = create_hyper_mat(samples, lines, bands, bip_mat->data_type, "bil");
@@ -348,7 +348,7 @@ hyper_mat bip2bil(hyper_mat bip_mat)
 	char* bip_data = (char*)bip_mat -> data;
 	char* bil_data = (char*)bil_mat -> data;
 
-	unsigned int bil_index = 0, bip_index = 0;
+	long int bil_index = 0, bip_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -391,9 +391,9 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 
 	hypercv_assert(start_row>=0 && start_col>=0 && start_band>=0 && end_row<=src_mat->lines && end_col<=src_mat->samples && end_band<=src_mat->bands, "range must be inside the hyper mat");
 
-	int samples = end_col - start_col;
-	int lines = end_row - start_row;
-	int bands = end_band - start_band;
+	long int samples = end_col - start_col;
+	long int lines = end_row - start_row;
+	long int bands = end_band - start_band;
 	int data_type = src_mat -> data_type;
 
 	hyper_mat dst_mat = create_hyper_mat(samples, lines, bands, data_type, src_mat -> interleave);
@@ -403,10 +403,10 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 	char* src_data = (char*)src_mat->data;
 	char* dst_data = (char*)dst_mat->data;
 
-	int src_index =0, dst_index =0;
-	int src_samples = src_mat -> samples;
-	int src_lines = src_mat -> lines;
-	int src_bands = src_mat -> bands;
+	long int src_index =0, dst_index =0;
+	long int src_samples = src_mat -> samples;
+	long int src_lines = src_mat -> lines;
+	long int src_bands = src_mat -> bands;
 
 	if(cmpstr(src_mat->interleave, "bil"))
 	{
@@ -483,18 +483,18 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 simple_mat reshape_hypermat_2_simplemat(hyper_mat src_mat, int dst_rows, int dst_cols)
 {
 
-	int src_samples = src_mat -> samples;
-	int src_lines = src_mat -> lines;
-	int src_bands = src_mat -> bands;
+	long int src_samples = src_mat -> samples;
+	long int src_lines = src_mat -> lines;
+	long int src_bands = src_mat -> bands;
 
-	int src_size = src_samples * src_lines * src_bands;
-	int dst_size = dst_rows * dst_cols ;
+	long int src_size = src_samples * src_lines * src_bands;
+	long int dst_size = (long int)dst_rows * dst_cols ;
 
 	hypercv_assert(src_size == dst_size, "reshape could not change the size");
 
 	simple_mat dst_mat = create_simple_mat(dst_rows, dst_cols, src_mat->data_type,1);
 
-	memcpy(dst_mat->data, src_mat->data, dst_rows * dst_cols * dst_mat->elem_size);
+	memcpy(dst_mat->data, src_mat->data, dst_size * dst_mat->elem_size);
 
 	return dst_mat;
 }
@@ -508,7 +508,7 @@ simple_mat reshape_hypermat_2_simplemat(hyper_mat src_mat, int dst_rows, int dst
 void hyper_mat_2_simple_mat(hyper_mat src_mat, simple_mat dst_mat, int band)
 {
 	hypercv_assert(cmpstr(src_mat -> interleave,"bsq") == 1, "input hyper mat's interleave must be bsq");
-	int samples,lines;
+	long int samples,lines;
 	samples = src_mat -> samples;
 	lines = src_mat -> lines;
 	hypercv_assert(band>0 && band<=src_mat->bands, "band must be between 1 and bands");
@@ -534,8 +534,8 @@ void hyper_mat_2_simple_mat(hyper_mat src_mat, simple_mat dst_mat, int band)
 **/
 void simple_mat_2_hyper_mat(hyper_mat dst_mat, simple_mat src_mat, int band)
 {
-	int samples = dst_mat->samples;
-	int lines = dst_mat->lines;
+	long int samples = dst_mat->samples;
+	long int lines = dst_mat->lines;
 	int bands = dst_mat->bands;
 	hypercv_assert(src_mat->rows==lines&&src_mat->cols==samples,"simple mat size unequal to hyper mat");
 	hypercv_assert(band<=bands&&band>0,"band<bands");
@@ -563,7 +563,7 @@ void simple_mat_transport(simple_mat res,simple_mat src)
 	hypercv_assert(rows == src->cols && cols == src->rows && res->data_type == src->data_type && res->channels == src->channels, "data size of transport image equal to srcmat ");
 
 	int data_type = src->data_type;
-	int elemsize = get_elemsize(data_type) * src->channels;
+	long int elemsize = get_elemsize(data_type) * src->channels;
 
 	char *res_data = (char*)res->data;
 	char *src_data = (char*)src->data;
@@ -660,11 +660,11 @@ void hyper_mat_splicing(hyper_mat mat, hyper_mat part, int start_index)
 	hypercv_assert(mat->data_type == part->data_type,"data type error");
 	hypercv_assert(start_index >= 0 && (long int)start_index + (long int)part->samples*part->lines*part->bands <= (long int)mat->samples*mat->lines*mat->bands,"part must fit into the mat");
 
-	int elemsize = get_elemsize(mat->data_type); 
+	long int elemsize = get_elemsize(mat->data_type); 
 
 	unsigned char* mat_data = (unsigned char*)mat->data+start_index*elemsize;
 	unsigned char* part_data= (unsigned char*)part->data;
 
-	memcpy(mat_data, part_data,part->samples*part->lines*part->bands*elemsize);
+	memcpy(mat_data, part_data,elemsize*part->samples*part->lines*part->bands);
 }
 
-- 
2.43.0


From eaba63a1835a80d504558cc8ba3e5570ece268f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 097/121] fix: read the interleave of a header in either case

---
 modules/core/src/c_src/hypermat.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 7965285..c407673 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -5,6 +5,7 @@
 	> Created Time: 2020年01月08日 星期三 22时35分36秒
  ************************************************************************/
 #include "precomp.h"
+#include <ctype.h>
 
 #ifndef MAXLINE
 #define MAXLINE 10000 //each line no more than 10000 words
@@ -101,6 +102,8 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 		else if (cmpstr(item, "interleave") == 1)
 		{
 			sscanf(line, "%*[^=]= %c%c%c", &interleave[0],&interleave[1],&interleave[2]);
+			for (int i = 0; i < 3; i++)
+				interleave[i] = tolower((unsigned char)interleave[i]);
 		}
 		else if (strncmp(item, "wavelength", 10) == 0 && item[10 + strspn(item + 10, " \t")] == '\0' && strchr(line, '{') != NULL)
 		{	
-- 
2.43.0


From 0e19db30c8b17fc9c9509fa5622e0c5ae8cc8bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 098/121] fix: creating a hyper mat refuses an interleave that
 is not bsq, bil or bip

---
 modules/core/src/c_src/hypermat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index c407673..0f98696 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -170,6 +170,7 @@ hyper_mat create_hyper_mat_with_data(const int samples, const int lines, const i
 	hypercv_assert(lines > 0, "the lines of hyper mat must be greater than zero.");
 	hypercv_assert(bands > 0, "the bands of hyper mat must be greater than zero.");
 	hypercv_assert(get_elemsize(data_type) > 0, "the data type of hyper mat is not supported.");
+	hypercv_assert(interleave != NULL && (strncmp(interleave,"bsq",3) == 0 || strncmp(interleave,"bil",3) == 0 || strncmp(interleave,"bip",3) == 0), "the interleave of hyper mat must be bsq, bil or bip.");
 
 	hyper_mat mat;
 
-- 
2.43.0


From 32159765da56b2aa4ad98197316f295cebb671b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 099/121] fix: HyMat reads the layout exactly and the
 wavelength list wherever it stands

---
 modules/core/src/cxx_src/hypermat.cpp | 43 ++++++++++++++-------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index 18a6ffd..8ef4216 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -8,6 +8,7 @@
 
 
 #include "precomp.hpp"
+#include <strings.h>
 
 namespace hypercv
 {
@@ -56,7 +57,7 @@ namespace hypercv
 		if(!file.is_open())
 			return;
 
-		string lineBuff;
+		string lineBuff, waveBuff;
 
 
 		while (getline(file,lineBuff))
@@ -75,8 +76,6 @@ namespace hypercv
 			else if (cmpstr(item, (char*)"bands") == 1)
 			{
 				sscanf(line, "%*[^=]=%d", &bands);
-				free(wavelength);
-				wavelength = NULL;
 			}
 
 			else if (cmpstr(item, (char*)"data type") == 1)
@@ -84,17 +83,20 @@ namespace hypercv
 
 			else if (cmpstr(item, (char*)"interleave") == 1)
 			{
-				if(lineBuff.find("q")!=lineBuff.npos)
+				char value[4] = "";
+				sscanf(line, "%*[^=]= %3s", value);
+				if(strcasecmp(value, "bsq") == 0)
 					format = HYPERCV_BSQ;
-				else if(lineBuff.find("p")!=lineBuff.npos)
+				else if(strcasecmp(value, "bip") == 0)
 					format = HYPERCV_BIP;
-				else 
+				else if(strcasecmp(value, "bil") == 0)
 					format = HYPERCV_BIL;
+				else
+					format = -1;
 			}
-			else if (lineBuff.find("wavelength = {") == 0)
+			else if (strncmp(item, "wavelength", 10) == 0 && item[10 + strspn(item + 10, " \t")] == '\0' && lineBuff.find('{') != lineBuff.npos)
 			{	
-				string waveBuff, s;
-				stringstream ss;
+				waveBuff.clear();
 				do
 				{
 					int startIndex, endIndex;
@@ -104,21 +106,22 @@ namespace hypercv
 					waveBuff += lineBuff.substr(startIndex,endIndex-startIndex);
 				}
 				while(lineBuff.find('}')==lineBuff.npos&&getline(file,lineBuff));
-				ss<<waveBuff;
-				free(wavelength);
-				wavelength = NULL;
-				if(bands > 0)
-				{
-					wavelength = (float*)calloc(bands, sizeof(float));
-					hypercv_assert(wavelength != NULL, "malloc fail");
-				}
-				for(int i=0;i<bands&&getline(ss,s,',');i++)
-					wavelength[i] = atof(s.c_str());
-
 			}
 		}
 
 		file.close();
+
+		free(wavelength);
+		wavelength = NULL;
+		if(bands > 0 && !waveBuff.empty())
+		{
+			wavelength = (float*)calloc(bands, sizeof(float));
+			hypercv_assert(wavelength != NULL, "malloc fail");
+			string s;
+			stringstream ss(waveBuff);
+			for(int i=0;i<bands&&getline(ss,s,',');i++)
+				wavelength[i] = atof(s.c_str());
+		}
 	}
 
 	/**
-- 
2.43.0


From 6d81858f4daccdc863b982ecdcbf761c9e88465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:22 +0000
Subject: [PATCH 100/121] fix: HyMat copies no more than it holds and forgets
 its size when released

---
 modules/core/include/cxx_include/hypermat.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index df0b428..c0d9d91 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -204,6 +204,8 @@ namespace hypercv
 		if(_dataSize == 0)
 			_dataSize = dataSize;
 
+		hypercv_assert(_dataSize >= 0 && _dataSize <= dataSize, "the data to copy must fit into the HyMat");
+
 		memcpy(data, _data, _dataSize);
 	}
 
@@ -215,6 +217,8 @@ namespace hypercv
 		if(_bands == 0)
 			_bands = bands;
 
+		hypercv_assert(_bands >= 0 && _bands <= bands, "the wavelengths to copy must fit into the HyMat");
+
 		memcpy(wavelength, _data, _bands * sizeof(float));
 	}
 
@@ -442,6 +446,8 @@ namespace hypercv
 		data = NULL;
 		wavelength = NULL;
 		samples = lines = bands = dataType = 0;
+		elemSize = 0;
+		dataSize = 0;
 
 	}
 
-- 
2.43.0


From 02b99241205de5c9bd9e5e773042e3b42b8515cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 101/121] fix: normalize covers every channel and refuses
 unknown norms and unfit mats

---
 modules/algorithm/src/normalize.c | 37 ++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index 0a1f2e0..4f97e6c 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -19,6 +19,7 @@ void hypercv_normalize(simple_mat src, simple_mat dst, float alpha, float beta,
 {
     hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
 	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
+	hypercv_assert(src->data_type == 1||src->data_type == 4,"src must be unsigned char or float");
 
 	if(src->data_type == 1)
 		hypercv_normalize_uchar(src, dst, alpha, beta, norm_type);
@@ -30,6 +31,8 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 {
 	hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
 	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
+	hypercv_assert(src->data_type == 1&&dst->data_type == 1&&dst->channels == src->channels,"src and dst must be unsigned char mats of the same channels");
+	hypercv_assert(norm_type == NORM_L1||norm_type == NORM_L2||norm_type == NORM_INF||norm_type == NORM_MINMAX,"unknown norm type");
 	int rows = src->rows;
 	int cols = src->cols;
 	int data_type = src->data_type;
@@ -42,32 +45,32 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 	if(norm_type == NORM_L1)
 	{
 		double L1_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (int i =0;i< rows*cols*channels;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] =saturate_cast_float2uchar(src_data[i]*alpha/L1_norm);
 	}
 	if(norm_type == NORM_L2)
 	{
 		double L2_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (int i =0;i< rows*cols*channels;i++ )
 			L2_norm += (double)src_data[i]*src_data[i];
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/sqrt(L2_norm));
 	}
 
 	if(norm_type == NORM_INF)
 	{
 		float INF_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (int i =0;i< rows*cols*channels;i++ )
 			INF_norm = src_data[i]>INF_norm?src_data[i]:INF_norm;
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/INF_norm);
 	}
 	if(norm_type == NORM_MINMAX)
 	{
 		float maxsrc=-1000000,minsrc=1000000;
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 		{
 			maxsrc = maxsrc>src_data[i]?maxsrc:src_data[i];
 			minsrc = minsrc<src_data[i]?minsrc:src_data[i];
@@ -75,7 +78,7 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 		float b = alpha>beta?alpha:beta;
 		float a = alpha>beta?beta:alpha;
 
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = saturate_cast_float2uchar((src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a);
 	}
 }
@@ -85,6 +88,8 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 {
 	hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
 	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
+	hypercv_assert(src->data_type == 4&&dst->data_type == 4&&dst->channels == src->channels,"src and dst must be float mats of the same channels");
+	hypercv_assert(norm_type == NORM_L1||norm_type == NORM_L2||norm_type == NORM_INF||norm_type == NORM_MINMAX,"unknown norm type");
 	int rows = src->rows;
 	int cols = src->cols;
 	int data_type = src->data_type;
@@ -96,32 +101,32 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 	if(norm_type == NORM_L1)
 	{
 		double L1_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (int i =0;i< rows*cols*channels;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] =src_data[i]*alpha/L1_norm;
 	}
 	if(norm_type == NORM_L2)
 	{
 		double L2_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (int i =0;i< rows*cols*channels;i++ )
 			L2_norm += (double)src_data[i]*src_data[i];
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = src_data[i]*alpha/sqrt(L2_norm);
 	}
 
 	if(norm_type == NORM_INF)
 	{
 		float INF_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (int i =0;i< rows*cols*channels;i++ )
 			INF_norm = fabs(src_data[i])>INF_norm?fabs(src_data[i]):INF_norm;
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = src_data[i]*alpha/INF_norm;
 	}
 	if(norm_type == NORM_MINMAX)
 	{
 		float maxsrc=src_data[0],minsrc=src_data[0];
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 		{
 			maxsrc = maxsrc>src_data[i]?maxsrc:src_data[i];
 			minsrc = minsrc<src_data[i]?minsrc:src_data[i];
@@ -129,7 +134,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		float b = alpha>beta?alpha:beta;
 		float a = alpha>beta?beta:alpha;
 
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = (src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a;
 	}
 }
-- 
2.43.0


From e02ae853372b14dc6136918258a507029b7dbe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 102/121] fix: algorithms refuse mats of a type or channel
 count they cannot handle

---
 modules/algorithm/src/HisEqualization.c |  2 ++
 modules/algorithm/src/cem.c             |  1 +
 modules/algorithm/src/cluster.c         |  1 +
 modules/algorithm/src/dft.c             | 12 ++++++++++++
 4 files changed, 16 insertions(+)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index e5559d9..14a02d9 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -17,6 +17,7 @@ void HisEqualization( simple_mat src_mat,simple_mat dst_mat)
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
 	hypercv_assert(rows==dst_mat->rows&&dst_mat->cols==cols,"input mat size equal");
+	hypercv_assert(src_mat->data_type == 1&&src_mat->channels == 1&&dst_mat->data_type == 1&&dst_mat->channels == 1,"only use in gray image of unsigned char");
 
 	unsigned char* data = (unsigned char*) src_mat ->data;
 	unsigned char* dst_data = (unsigned char*) dst_mat ->data;
@@ -38,6 +39,7 @@ void HisEqualization( simple_mat src_mat,simple_mat dst_mat)
 
 void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 {
+	hypercv_assert(bsq_mat!=NULL&&dst_mat!=NULL,"input mat could not be NULL");
 	hypercv_assert(cmpstr(bsq_mat->interleave,"bsq")==1,"input src mat must be bsq");
 	int samples = bsq_mat -> samples;
 	int lines = bsq_mat -> lines;
diff --git a/modules/algorithm/src/cem.c b/modules/algorithm/src/cem.c
index b9cfea9..b04de39 100644
--- a/modules/algorithm/src/cem.c
+++ b/modules/algorithm/src/cem.c
@@ -13,6 +13,7 @@
  **/
 simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 {
+	hypercv_assert(bsq_mat != NULL&&spectral != NULL , "input mat cannot be NULL");
 	hypercv_assert(bsq_mat->data_type == 4           , "input mat data_type is float");
 	
 	if(cmpstr(bsq_mat->interleave, "bsq") != 1)
diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 3ea34d6..18847b5 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -24,6 +24,7 @@ static int distance(POINT p, int i,int j)
 void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 {
 	hypercv_assert(src != NULL            , "INPUT MAT CANNOT BE Null");
+	hypercv_assert(src->data_type == 1    , "only use in unsigned char image");
 	hypercv_assert(kind >= 1              , "kind must >=1");
 	hypercv_assert(vector_size(v1) == kind, "input point vector size == kind");
 
diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index be1d5ec..71af51a 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -30,6 +30,7 @@ void hypercv_dft(simple_mat src, simple_mat re_mat, simple_mat im_mat)
 	hypercv_assert(src->rows == re_mat->rows&&src->rows == im_mat->rows&&src->cols == re_mat->cols&&src->cols == im_mat->cols,"src,im,re mat size equal");
 	hypercv_assert(re_mat->data_type == 4&&im_mat->data_type == 4,"re_mat and im_mat data_type ==4");
 	hypercv_assert(src->channels == re_mat->channels&&src->channels == im_mat->channels&&src->channels == 1,"only gray image");
+	hypercv_assert(src->data_type == 1||src->data_type == 12,"src must be unsigned char or unsigned short");
 
 	if(src->data_type == 1)
 		hypercv_dft_uchar(src, re_mat, im_mat);
@@ -44,6 +45,7 @@ void hypercv_dft_uchar(simple_mat src, simple_mat re_mat, simple_mat im_mat)
 	hypercv_assert(src->rows == re_mat->rows&&src->rows == im_mat->rows&&src->cols == re_mat->cols&&src->cols == im_mat->cols,"src,im,re mat size equal");
 	hypercv_assert(re_mat->data_type == 4&&im_mat->data_type == 4,"re_mat and im_mat data_type ==4");
 	hypercv_assert(src->channels == re_mat->channels&&src->channels == im_mat->channels&&src->channels == 1,"only gray image");
+	hypercv_assert(src->data_type == 1,"src data_type == 1");
 
 	double re,im,temp;
 
@@ -81,6 +83,7 @@ void hypercv_dft_ushort(simple_mat src, simple_mat re_mat, simple_mat im_mat)
 	hypercv_assert(src->rows == re_mat->rows&&src->rows == im_mat->rows&&src->cols == re_mat->cols&&src->cols == im_mat->cols,"src,im,re mat size equal");
 	hypercv_assert(re_mat->data_type == 4&&im_mat->data_type == 4,"re_mat and im_mat data_type ==4");
 	hypercv_assert(src->channels == re_mat->channels&&src->channels == im_mat->channels&&src->channels == 1,"only gray image");
+	hypercv_assert(src->data_type == 12,"src data_type == 12");
 
 	double re,im,temp;
 
@@ -120,6 +123,7 @@ void hypercv_dft_frespectrum(simple_mat src, simple_mat dst)
 	hypercv_assert(dst!=NULL, "OUTPUT MAT CAN NOT BE Null");
 
 	hypercv_assert(src->rows == dst->rows&&src->cols == dst->cols,"SIZE ERROR");
+	hypercv_assert(src->data_type == 1&&src->channels == 1&&dst->data_type == 1&&dst->channels == 1,"only use in gray image of unsigned char");
 
 	int rows = src->rows;
 	int cols = src->cols;
@@ -156,6 +160,8 @@ void hypercv_dft_frespectrum(simple_mat src, simple_mat dst)
 
 void hypercv_idft(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat)
 {
+	hypercv_assert(re_mat!=NULL&&im_mat!=NULL&&dst_mat!=NULL,"INPUT MAT CANNOT BE NULL");
+	hypercv_assert(dst_mat->data_type == 1||dst_mat->data_type == 12,"output mat must be unsigned char or unsigned short");
 	if(dst_mat->data_type == 1)
 		hypercv_idft_uchar(re_mat, im_mat, dst_mat);
 	else if(dst_mat->data_type == 12)
@@ -164,6 +170,8 @@ void hypercv_idft(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat)
 
 void hypercv_idft_uchar(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat)
 {
+	hypercv_assert(re_mat!=NULL&&im_mat!=NULL&&dst_mat!=NULL,"INPUT MAT CANNOT BE NULL");
+	hypercv_assert(re_mat->channels == 1&&im_mat->channels == 1&&dst_mat->channels == 1,"only gray image");
 	hypercv_assert(re_mat->rows==im_mat->rows&&re_mat->rows==dst_mat->rows&&re_mat->cols == im_mat->cols&&re_mat->cols == dst_mat->cols,"INPUT MAT SIZE ERROR");
 	hypercv_assert(re_mat->data_type == im_mat->data_type&&re_mat->data_type == 4,"re and im mat data_type == 4");
 	hypercv_assert(dst_mat->data_type == 1,"output mat is gray image");
@@ -196,6 +204,8 @@ void hypercv_idft_uchar(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat
 
 void hypercv_idft_ushort(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat)
 {
+	hypercv_assert(re_mat!=NULL&&im_mat!=NULL&&dst_mat!=NULL,"INPUT MAT CANNOT BE NULL");
+	hypercv_assert(re_mat->channels == 1&&im_mat->channels == 1&&dst_mat->channels == 1,"only gray image");
 	hypercv_assert(re_mat->rows==im_mat->rows&&re_mat->rows==dst_mat->rows&&re_mat->cols == im_mat->cols&&re_mat->cols == dst_mat->cols,"INPUT MAT SIZE ERROR");
 	hypercv_assert(re_mat->data_type == im_mat->data_type&&re_mat->data_type == 4,"re and im mat data_type == 4");
 	hypercv_assert(dst_mat->data_type == 12,"output mat is gray image");
@@ -230,6 +240,8 @@ void hypercv_idft_ushort(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_ma
 
 void hypercv_magnitude(simple_mat re_mat, simple_mat im_mat, simple_mat dst_mat)
 {
+	hypercv_assert(re_mat!=NULL&&im_mat!=NULL&&dst_mat!=NULL,"INPUT MAT CANNOT BE NULL");
+	hypercv_assert(re_mat->channels == 1&&im_mat->channels == 1&&dst_mat->channels == 1,"only gray image");
 	hypercv_assert(re_mat->rows==im_mat->rows&&re_mat->rows==dst_mat->rows&&re_mat->cols == im_mat->cols&&re_mat->cols == dst_mat->cols,"INPUT MAT SIZE ERROR");
 	hypercv_assert(re_mat->data_type == im_mat->data_type&&re_mat->data_type == 4,"re and im mat data_type == 4");
 	hypercv_assert(dst_mat->data_type == 4,"output mat is float image");
-- 
2.43.0


From 1001a2b8370080a2a3d880691247f310e16c0e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 103/121] fix: filters refuse mats whose type, channels or size
 do not fit

---
 .../src/c_src/GeometricTransformation.c       |  3 +++
 modules/process/src/c_src/filter.c            | 19 +++++++++++++++----
 modules/process/src/c_src/gradient.c          |  4 ++++
 modules/process/src/c_src/morphology.c        |  8 ++++++++
 modules/process/src/c_src/threshold.c         | 16 +++++++++-------
 5 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index ccd6f98..5bd9c3f 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -88,6 +88,7 @@ void hypercv_pyramid_down(simple_mat src, simple_mat dst)
 	hypercv_assert(dst != NULL, "dst mat == null");
 	hypercv_assert(dst->rows ==(int)((src_rows+1)/2) && dst->cols==(int)((src_cols+1)/2),"dst size error");
 	hypercv_assert(dst->data_type == src->data_type, "dst data_type error");
+	hypercv_assert(src->data_type == 1&&(channels == 1||channels == 3)&&dst->channels == channels, "only use in gray or rgb image of unsigned char");
 	
 	simple_mat tmp = create_simple_mat(src_rows,src_cols,data_type,channels);
 
@@ -120,6 +121,7 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 	hypercv_assert(dst != NULL, "dst mat == null");
 	hypercv_assert(dst->rows == src_rows*2 && dst->cols== src_cols*2,"dst size error");
 	hypercv_assert(dst->data_type == src->data_type, "dst data_type error");
+	hypercv_assert(src->data_type == 1&&(channels == 1||channels == 3)&&dst->channels == channels, "only use in gray or rgb image of unsigned char");
 	
 	simple_mat tmp = simple_mat_copy(dst);
 
@@ -160,6 +162,7 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 
 hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 {
+	hypercv_assert(mat != NULL,"input mat cannot be null");
 
 	if(cmpstr(mat->interleave,"bip")!=1)
 		convert2bip(mat);
diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 1f73079..31e5414 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -88,6 +88,8 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 	hypercv_assert(src!= NULL&&dst!=NULL,"input mat cannot be null");
 	hypercv_assert(kernel!=NULL,"kernel cannot be null");
 	hypercv_assert(dst->data_type == 4,"dst data_type == float");
+	hypercv_assert(src->data_type == 1&&(src->channels == 1||src->channels == 3),"src must be a gray or rgb image of unsigned char");
+	hypercv_assert(src->rows == dst->rows&&src->cols == dst->cols&&src->channels == dst->channels,"src mat size == dst mat size");
 
 	int rows = src->rows;
 	int cols = src->cols;
@@ -148,7 +150,9 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
  **/
 void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
-	hypercv_assert(src_mat,"input mat can not be NULL");
+	hypercv_assert(src_mat != NULL&&dst_mat != NULL,"input mat can not be NULL");
+	hypercv_assert(src_mat->data_type == 1&&src_mat->channels == 1&&dst_mat->data_type == 1&&dst_mat->channels == 1,"only use in gray image of unsigned char");
+	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols,"src mat size == dst mat size");
 	hypercv_assert(size>0&&size%2==1,"size should be odd number");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
@@ -185,7 +189,9 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
  **/
 void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
-	hypercv_assert(src_mat,"input mat can not be NULL");
+	hypercv_assert(src_mat != NULL&&dst_mat != NULL,"input mat can not be NULL");
+	hypercv_assert(src_mat->data_type == 1&&src_mat->channels == 1&&dst_mat->data_type == 1&&dst_mat->channels == 1,"only use in gray image of unsigned char");
+	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols,"src mat size == dst mat size");
 	hypercv_assert(size>0,"size should be greater than zero");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
@@ -333,10 +339,13 @@ void hypercv_gaussian_blur(simple_mat src_mat, simple_mat dst_mat, int ksize_wid
  **/
 void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, simple_mat kernel_mat_x, simple_mat kernel_mat_y, int border_type)
 {
+	hypercv_assert(src_mat!=NULL&&kernel_mat_x!=NULL&&kernel_mat_y!=NULL,"input mat must not be NULL");
+	hypercv_assert(src_mat->data_type == 1,"src mat must be unsigned char");
+	hypercv_assert(kernel_mat_x->data_type == 4&&kernel_mat_y->data_type == 4,"kernel must be float");
+
 	int ksize_width = kernel_mat_x->cols;
 	int ksize_height = kernel_mat_y->cols;
 
-	hypercv_assert(src_mat!=NULL,"input mat must not be NULL");
 	hypercv_assert(ksize_width>=0,"length of kernel_x must >=0");
 	hypercv_assert(ksize_height>=0,"length of kernel_y must >=0");
 	hypercv_assert(border_type == BORDER_REFLECT
@@ -353,6 +362,7 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 
 	if(dst_mat == NULL)
 		dst_mat = create_simple_mat(src_mat->rows, src_mat->cols, src_mat->data_type,cn);
+	hypercv_assert(dst_mat->data_type == 1&&dst_mat->rows == src_mat->rows&&dst_mat->cols == src_mat->cols&&dst_mat->channels == cn,"src mat size == dst mat size");
 	unsigned char* dst_data =(unsigned char*) dst_mat -> data;
 
 	int src_rows = src_mat->rows;
@@ -492,7 +502,7 @@ void hypercv_integral(simple_mat src, simple_mat dst)
 	if(dst == NULL)
 		dst = create_simple_mat(rows,cols,3,1);
 
-	hypercv_assert(dst->channels == 1&&dst->data_type == 3,"dst mat error");
+	hypercv_assert(dst->channels == 1&&dst->data_type == 3&&dst->rows == rows&&dst->cols == cols,"dst mat error");
 
 	unsigned char* src_data = (unsigned char*)src->data;
 	int* dst_data = (int*)dst->data;
@@ -526,6 +536,7 @@ void hypercv_integral(simple_mat src, simple_mat dst)
 simple_mat hypercv_copy_make_border(simple_mat src, int top, int bottom, int left, int right, int border_type, unsigned char value)
 {
 	hypercv_assert(src!=NULL,"INPUT MAT CANNOT BE NULL");
+	hypercv_assert(src->data_type == 1,"only use in unsigned char image");
 	hypercv_assert(left>=0&&right>=0&&top>=0&&bottom>=0,"new border >=0");
 	hypercv_assert(border_type == BORDER_REFLECT
 			||border_type == BORDER_REFLECT_101
diff --git a/modules/process/src/c_src/gradient.c b/modules/process/src/c_src/gradient.c
index 8f1e3fc..76d09dd 100644
--- a/modules/process/src/c_src/gradient.c
+++ b/modules/process/src/c_src/gradient.c
@@ -17,6 +17,8 @@ void hypercv_laplacian(simple_mat src, simple_mat dst, int k_size, int border_ty
 {
 	hypercv_assert(src!=NULL&&dst!=NULL, "input mat can not be NULL");
 	hypercv_assert(k_size>0,"kernel size > 0");
+	hypercv_assert(src->data_type == 1&&src->channels == 1&&dst->data_type == 1&&dst->channels == 1,"only use in gray image of unsigned char");
+	hypercv_assert(src->rows == dst->rows&&src->cols == dst->cols, "src size == dst size");
 	int cols = src->cols;
 	int rows = src->rows;
 	int channels = src->channels;
@@ -77,6 +79,7 @@ void hypercv_laplacian(simple_mat src, simple_mat dst, int k_size, int border_ty
  **/
 void hypercv_sobel(simple_mat src, simple_mat dst, int threshold, int border_type)
 {
+	hypercv_assert(src!=NULL&&dst!=NULL, "input mat can not be NULL");
 	hypercv_assert(src->rows == dst->rows&&src->cols==dst->cols, "src size == dst size");
 	hypercv_assert(border_type == BORDER_REFLECT
 			||border_type == BORDER_REFLECT_101
@@ -84,6 +87,7 @@ void hypercv_sobel(simple_mat src, simple_mat dst, int threshold, int border_typ
 			||border_type == BORDER_WRAP
 			||border_type == BORDER_CONSTANT ,"Unknown/unsupported border type" );
 	hypercv_assert(src->channels == 1,"sobel image channels == 1")
+	hypercv_assert(src->data_type == 1&&dst->data_type == 1&&dst->channels == 1,"only use in gray image of unsigned char");
 
 	int rows = src->rows;
 	int cols = src->cols;
diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index 20e7ed4..b245929 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -18,6 +18,8 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 {
 	hypercv_assert(mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(s!= NULL, "corrosion kernel cannot be NULL");
+	hypercv_assert(mat->data_type == 1&&mat->channels == 1,"only use in gray image of unsigned char");
+	hypercv_assert(dst_mat == NULL||(dst_mat->data_type == 1&&dst_mat->channels == 1&&dst_mat->rows == mat->rows&&dst_mat->cols == mat->cols),"src mat size == dst mat size");
 
 	int rows = mat->rows;
 	int cols = mat->cols;
@@ -82,6 +84,8 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 {
 	hypercv_assert(mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(s!= NULL, "expend kernel cannot be NULL");
+	hypercv_assert(mat->data_type == 1&&mat->channels == 1,"only use in gray image of unsigned char");
+	hypercv_assert(dst_mat == NULL||(dst_mat->data_type == 1&&dst_mat->channels == 1&&dst_mat->rows == mat->rows&&dst_mat->cols == mat->cols),"src mat size == dst mat size");
 
 	int rows = mat->rows;
 	int cols = mat->cols;
@@ -148,6 +152,8 @@ void hypercv_open(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 {
 	hypercv_assert(src!= NULL,"input mat cannot be NULL");
 	hypercv_assert(kernel != NULL, "kernel cannot be NULL");
+	hypercv_assert(src->data_type == 1&&src->channels == 1,"only use in gray image of unsigned char");
+	hypercv_assert(dst == NULL||(dst->data_type == 1&&dst->channels == 1&&dst->rows == src->rows&&dst->cols == src->cols),"src mat size == dst mat size");
 
 	int rows = src->rows;
 	int cols = src->cols;
@@ -180,6 +186,8 @@ void hypercv_close(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 {
 	hypercv_assert(src!= NULL,"input mat cannot be NULL");
 	hypercv_assert(kernel != NULL, "kernel cannot be NULL");
+	hypercv_assert(src->data_type == 1&&src->channels == 1,"only use in gray image of unsigned char");
+	hypercv_assert(dst == NULL||(dst->data_type == 1&&dst->channels == 1&&dst->rows == src->rows&&dst->cols == src->cols),"src mat size == dst mat size");
 
 	int rows = src->rows;
 	int cols = src->cols;
diff --git a/modules/process/src/c_src/threshold.c b/modules/process/src/c_src/threshold.c
index 2bed2de..66aafa4 100644
--- a/modules/process/src/c_src/threshold.c
+++ b/modules/process/src/c_src/threshold.c
@@ -8,7 +8,9 @@
 
 int otsuThreshold(simple_mat img)
 {
-	
+	hypercv_assert(img!=NULL,"input mat cannot be NULL");
+	hypercv_assert(img->data_type == 1&&(img->channels == 1||img->channels == 3),"only use in gray or rgb image of unsigned char");
+
 	int Threshold = 0;//阈值
 	int height = img->rows;
 	int width  = img->cols;
@@ -77,7 +79,7 @@ void hypercv_threshold_binary(simple_mat src_mat, simple_mat dst_mat, int thresh
 {
 	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols==dst_mat->cols&&src_mat->channels==dst_mat->channels,"src_mat & dst_mat size equal");
-	hypercv_assert(src_mat->data_type == 1,"0-255");
+	hypercv_assert(src_mat->data_type == 1&&dst_mat->data_type == 1,"0-255");
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
 
 	int rows = src_mat->rows;
@@ -100,7 +102,7 @@ void hypercv_threshold_binary_inv(simple_mat src_mat, simple_mat dst_mat, int th
 {
     hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols==dst_mat->cols&&src_mat->channels==dst_mat->channels,"src_mat & dst_mat size equal");
-	hypercv_assert(src_mat->data_type == 1,"0-255");
+	hypercv_assert(src_mat->data_type == 1&&dst_mat->data_type == 1,"0-255");
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
 
 	int rows = src_mat->rows;
@@ -123,7 +125,7 @@ void hypercv_threshold_trunc(simple_mat src_mat, simple_mat dst_mat, int thresh,
 {
     hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols==dst_mat->cols&&src_mat->channels==dst_mat->channels,"src_mat & dst_mat size equal");
-	hypercv_assert(src_mat->data_type == 1,"0-255");
+	hypercv_assert(src_mat->data_type == 1&&dst_mat->data_type == 1,"0-255");
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
 
 	int rows = src_mat->rows;
@@ -146,7 +148,7 @@ void hypercv_threshold_tozero(simple_mat src_mat, simple_mat dst_mat, int thresh
 {
     hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols==dst_mat->cols&&src_mat->channels==dst_mat->channels,"src_mat & dst_mat size equal");
-	hypercv_assert(src_mat->data_type == 1,"0-255");
+	hypercv_assert(src_mat->data_type == 1&&dst_mat->data_type == 1,"0-255");
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
 
 	int rows = src_mat->rows;
@@ -169,7 +171,7 @@ void hypercv_threshold_tozero_inv(simple_mat src_mat, simple_mat dst_mat, int th
 {
     hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols==dst_mat->cols&&src_mat->channels==dst_mat->channels,"src_mat & dst_mat size equal");
-	hypercv_assert(src_mat->data_type == 1,"0-255");
+	hypercv_assert(src_mat->data_type == 1&&dst_mat->data_type == 1,"0-255");
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
 
 	int rows = src_mat->rows;
@@ -194,7 +196,7 @@ void hypercv_threshold_otsu(simple_mat src_mat, simple_mat dst_mat)
 {
  hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols==dst_mat->cols&&src_mat->channels==dst_mat->channels,"src_mat & dst_mat size equal");
-	hypercv_assert(src_mat->data_type == 1,"0-255");
+	hypercv_assert(src_mat->data_type == 1&&dst_mat->data_type == 1,"0-255");
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
 
 
-- 
2.43.0


From 487da98ee5fcd1f1b6912ecd23d218e76288e264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 104/121] fix: drawing refuses a destination that is not 8-bit

---
 modules/highgui/src/draw.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/highgui/src/draw.c b/modules/highgui/src/draw.c
index 1be6936..ee21d97 100644
--- a/modules/highgui/src/draw.c
+++ b/modules/highgui/src/draw.c
@@ -8,7 +8,7 @@
 void draw_POINT(simple_mat src_mat, simple_mat dst_mat, POINT* v, int point_num, RGB_data color, int size)
 {
 	hypercv_assert(src_mat!=NULL&&dst_mat !=NULL, "input mat cannot be NULL");
-	hypercv_assert(src_mat->data_type == 1, "input mat data type == 1");
+	hypercv_assert(src_mat->data_type == 1&&dst_mat->data_type == 1, "input mat data type == 1");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols&&src_mat->channels==dst_mat->channels,"src,dst size should be equal");
 
 	int rows = src_mat->rows;
@@ -47,7 +47,7 @@ void draw_POINT(simple_mat src_mat, simple_mat dst_mat, POINT* v, int point_num,
 void draw_line(simple_mat src_mat, simple_mat dst_mat, POINT pt1, POINT pt2, RGB_data color, int thickness)
 {
 	hypercv_assert(src_mat!=NULL&&dst_mat !=NULL, "input mat cannot be NULL");
-	hypercv_assert(src_mat->data_type == 1, "input mat data type == 1");
+	hypercv_assert(src_mat->data_type == 1&&dst_mat->data_type == 1, "input mat data type == 1");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols&&src_mat->channels==dst_mat->channels,"src,dst size should be equal");
 
 	int rows,cols;
-- 
2.43.0


From 073d9f3054c4abc5de1e141f62fcc1a8c36b0839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 105/121] fix: colour, type and spectral functions refuse
 missing or unfit mats

---
 modules/process/src/c_src/colortransform.c  |  5 ++++-
 modules/process/src/c_src/datatypechange.c  | 22 ++++++++++-----------
 modules/process/src/c_src/imageprocess.c    |  7 +++++++
 modules/process/src/c_src/spectralprocess.c |  3 ++-
 4 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/modules/process/src/c_src/colortransform.c b/modules/process/src/c_src/colortransform.c
index 5b5b139..52d397a 100644
--- a/modules/process/src/c_src/colortransform.c
+++ b/modules/process/src/c_src/colortransform.c
@@ -45,6 +45,7 @@ simple_mat hypercv_colortransform(simple_mat src_mat, int method)
 **/
 simple_mat sm_binary2rgb(simple_mat binary_image)
 {
+	hypercv_assert(binary_image != NULL&&binary_image->data_type == 1,"input binary_image must be unsigned char");
 	hypercv_assert(binary_image->channels == 1,"input binary_image channels == 1");
 
 	int rows = binary_image -> rows;
@@ -71,6 +72,7 @@ simple_mat sm_binary2rgb(simple_mat binary_image)
 **/
 simple_mat sm_gray2rgb(simple_mat gray_image)
 {	
+	hypercv_assert(gray_image != NULL&&gray_image->data_type == 1,"input gray image must be unsigned char");
 	hypercv_assert(gray_image->channels == 1,"input gray image channels == 1");
 
 	int rows = gray_image -> rows;
@@ -97,6 +99,7 @@ simple_mat sm_gray2rgb(simple_mat gray_image)
 **/
 simple_mat sm_rgb2gray(simple_mat rgb_image, int method)
 {
+	hypercv_assert(rgb_image != NULL&&rgb_image->data_type == 1,"input rgb_image must be unsigned char");
 	hypercv_assert(rgb_image->channels == 3,"input rgb_image channels == 3");
 
 	int rows = rgb_image -> rows;
@@ -150,7 +153,7 @@ simple_mat sm_rgb2gray(simple_mat rgb_image, int method)
 void sm_bgr2rgb(simple_mat src_mat, simple_mat dst_mat)
 {
 	hypercv_assert(src_mat!=NULL&&dst_mat !=NULL, "input mat cannot be NULL");
-	hypercv_assert(src_mat->data_type == 1, "input mat data type == 1");
+	hypercv_assert(src_mat->data_type == 1&&dst_mat->data_type == 1, "input mat data type == 1");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols&&src_mat->channels==dst_mat->channels,"src,dst size should be equal");
 	hypercv_assert(src_mat->channels == 3,"input mat channels == 3");
 
diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index f267588..0be2b6a 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -23,7 +23,7 @@ static double clamp_value(double value, double min, double max)
  **/
 hyper_mat hyper_mat_uchar2short(hyper_mat uc_mat)
 {
-	hypercv_assert(uc_mat->data_type == 1,"intput mat datatype == unsigned char");
+	hypercv_assert(uc_mat != NULL&&uc_mat->data_type == 1,"intput mat datatype == unsigned char");
 
 	int samples = uc_mat->samples;
 	int lines = uc_mat->lines;
@@ -52,7 +52,7 @@ hyper_mat hyper_mat_uchar2short(hyper_mat uc_mat)
  **/
 hyper_mat hyper_mat_uchar2int(hyper_mat uc_mat)
 {
-	hypercv_assert(uc_mat->data_type == 1,"intput mat datatype == unsigned char");
+	hypercv_assert(uc_mat != NULL&&uc_mat->data_type == 1,"intput mat datatype == unsigned char");
 
 	int samples = uc_mat->samples;
 	int lines = uc_mat->lines;
@@ -81,7 +81,7 @@ hyper_mat hyper_mat_uchar2int(hyper_mat uc_mat)
  **/
 hyper_mat hyper_mat_uchar2float(hyper_mat uc_mat)
 {
-	hypercv_assert(uc_mat->data_type == 1,"intput mat datatype == unsigned char");
+	hypercv_assert(uc_mat != NULL&&uc_mat->data_type == 1,"intput mat datatype == unsigned char");
 
 	int samples = uc_mat->samples;
 	int lines = uc_mat->lines;
@@ -110,7 +110,7 @@ hyper_mat hyper_mat_uchar2float(hyper_mat uc_mat)
  **/
 hyper_mat hyper_mat_uchar2ushort(hyper_mat uc_mat)
 {
-	hypercv_assert(uc_mat->data_type == 1,"intput mat datatype == unsigned char");
+	hypercv_assert(uc_mat != NULL&&uc_mat->data_type == 1,"intput mat datatype == unsigned char");
 
 	int samples = uc_mat->samples;
 	int lines = uc_mat->lines;
@@ -140,7 +140,7 @@ hyper_mat hyper_mat_uchar2ushort(hyper_mat uc_mat)
 //todo write all brief and fix order data type
 hyper_mat hyper_mat_float2int(hyper_mat f_mat)
 {
-	hypercv_assert(f_mat->data_type == 4,"intput mat datatype == float");
+	hypercv_assert(f_mat != NULL&&f_mat->data_type == 4,"intput mat datatype == float");
 	int samples = f_mat->samples;
 	int lines = f_mat->lines;
 	int bands = f_mat->bands;
@@ -168,7 +168,7 @@ hyper_mat hyper_mat_float2int(hyper_mat f_mat)
  **/
 hyper_mat hyper_mat_float2char(hyper_mat f_mat)
 {
-	hypercv_assert(f_mat->data_type == 4,"intput mat datatype == float")
+	hypercv_assert(f_mat != NULL&&f_mat->data_type == 4,"intput mat datatype == float")
 		int samples = f_mat->samples;
 	int lines = f_mat->lines;
 	int bands = f_mat->bands;
@@ -198,7 +198,7 @@ hyper_mat hyper_mat_float2char(hyper_mat f_mat)
  **/
 hyper_mat hyper_mat_float2short(hyper_mat f_mat)
 {
-	hypercv_assert(f_mat->data_type == 4,"intput mat datatype == float");
+	hypercv_assert(f_mat != NULL&&f_mat->data_type == 4,"intput mat datatype == float");
 	int samples = f_mat->samples;
 	int lines = f_mat->lines;
 	int bands = f_mat->bands;
@@ -226,7 +226,7 @@ hyper_mat hyper_mat_float2short(hyper_mat f_mat)
  **/
 hyper_mat hyper_mat_float2ushort(hyper_mat f_mat)
 {
-	hypercv_assert(f_mat->data_type == 4,"intput mat datatype == float");
+	hypercv_assert(f_mat != NULL&&f_mat->data_type == 4,"intput mat datatype == float");
 	int samples = f_mat->samples;
 	int lines = f_mat->lines;
 	int bands = f_mat->bands;
@@ -256,7 +256,7 @@ hyper_mat hyper_mat_float2ushort(hyper_mat f_mat)
  **/
 hyper_mat hyper_mat_float2uchar(hyper_mat f_mat)
 {
-	hypercv_assert(f_mat->data_type == 4,"intput mat datatype == float");
+	hypercv_assert(f_mat != NULL&&f_mat->data_type == 4,"intput mat datatype == float");
 	int samples = f_mat->samples;
 	int lines = f_mat->lines;
 	int bands = f_mat->bands;
@@ -286,7 +286,7 @@ hyper_mat hyper_mat_float2uchar(hyper_mat f_mat)
  **/
 hyper_mat hyper_mat_float2uint(hyper_mat f_mat)
 {
-	hypercv_assert(f_mat->data_type == 4,"intput mat datatype == float");
+	hypercv_assert(f_mat != NULL&&f_mat->data_type == 4,"intput mat datatype == float");
 	int samples = f_mat->samples;
 	int lines = f_mat->lines;
 	int bands = f_mat->bands;
@@ -313,7 +313,7 @@ hyper_mat hyper_mat_float2uint(hyper_mat f_mat)
  **/
 hyper_mat hyper_mat_ushort2float(hyper_mat us_mat)
 {
-	hypercv_assert(us_mat->data_type == 12,"intput mat datatype == unsigned short");
+	hypercv_assert(us_mat != NULL&&us_mat->data_type == 12,"intput mat datatype == unsigned short");
 	int samples = us_mat->samples;
 	int lines = us_mat->lines;
 	int bands = us_mat->bands;
diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 7e40172..14e1c6d 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -387,6 +387,7 @@ hyper_mat bip2bil(hyper_mat bip_mat)
 **/
 hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, int start_band, int end_row, int end_col, int end_band)
 {
+	hypercv_assert(src_mat != NULL, "hyper_mat can not be NULL");
 	hypercv_assert(start_col<end_col && start_row<end_row && start_band<end_band, "start col & start row & start band must < end col & end row & end band");
 
 	hypercv_assert(start_row>=0 && start_col>=0 && start_band>=0 && end_row<=src_mat->lines && end_col<=src_mat->samples && end_band<=src_mat->bands, "range must be inside the hyper mat");
@@ -482,6 +483,7 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 **/
 simple_mat reshape_hypermat_2_simplemat(hyper_mat src_mat, int dst_rows, int dst_cols)
 {
+	hypercv_assert(src_mat != NULL && dst_rows > 0 && dst_cols > 0, "input mat cannot be NULL, rows and cols must be positive");
 
 	long int src_samples = src_mat -> samples;
 	long int src_lines = src_mat -> lines;
@@ -507,6 +509,7 @@ simple_mat reshape_hypermat_2_simplemat(hyper_mat src_mat, int dst_rows, int dst
 **/
 void hyper_mat_2_simple_mat(hyper_mat src_mat, simple_mat dst_mat, int band)
 {
+	hypercv_assert(src_mat != NULL && dst_mat != NULL, "input mat cannot be NULL");
 	hypercv_assert(cmpstr(src_mat -> interleave,"bsq") == 1, "input hyper mat's interleave must be bsq");
 	long int samples,lines;
 	samples = src_mat -> samples;
@@ -534,6 +537,7 @@ void hyper_mat_2_simple_mat(hyper_mat src_mat, simple_mat dst_mat, int band)
 **/
 void simple_mat_2_hyper_mat(hyper_mat dst_mat, simple_mat src_mat, int band)
 {
+	hypercv_assert(src_mat != NULL && dst_mat != NULL, "input mat cannot be NULL");
 	long int samples = dst_mat->samples;
 	long int lines = dst_mat->lines;
 	int bands = dst_mat->bands;
@@ -557,6 +561,7 @@ void simple_mat_2_hyper_mat(hyper_mat dst_mat, simple_mat src_mat, int band)
 **/
 void simple_mat_transport(simple_mat res,simple_mat src)
 {
+	hypercv_assert(res != NULL && src != NULL, "input mat cannot be NULL");
 	int rows = res->rows;
 	int cols = res->cols;
 	
@@ -642,6 +647,7 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 
 void simple_mat_log(simple_mat src_mat, simple_mat dst_mat)
 {
+	hypercv_assert(src_mat != NULL && dst_mat != NULL, "input mat cannot be NULL");
 	hypercv_assert(src_mat->data_type==4&&dst_mat->data_type == 4 , "input mat must be float mat");
 	hypercv_assert(src_mat->rows == dst_mat->rows && src_mat->cols == dst_mat->cols && src_mat->channels == dst_mat->channels, "src mat size == dst_mat size");
 
@@ -657,6 +663,7 @@ void simple_mat_log(simple_mat src_mat, simple_mat dst_mat)
 
 void hyper_mat_splicing(hyper_mat mat, hyper_mat part, int start_index)
 {
+	hypercv_assert(mat != NULL && part != NULL, "input mat cannot be NULL");
 	hypercv_assert(mat->data_type == part->data_type,"data type error");
 	hypercv_assert(start_index >= 0 && (long int)start_index + (long int)part->samples*part->lines*part->bands <= (long int)mat->samples*mat->lines*mat->bands,"part must fit into the mat");
 
diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 6704267..d59ec87 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -166,6 +166,7 @@ void hyper_mat_mean(hyper_mat bip_mat, simple_mat dst_mat)
 	int samples = bip_mat -> samples;
 	int lines = bip_mat -> lines;
 	int bands = bip_mat -> bands;
+	hypercv_assert(dst_mat != NULL && dst_mat->channels == 1, "result must be a simple mat of one channel");
 	hypercv_assert(samples == dst_mat -> cols&&lines == dst_mat->rows,"dst_mat size == bip_mat size");
 	hypercv_assert(bip_mat->data_type == 4 && dst_mat->data_type == 4,"simple mat datatype ==4");
 //todo other data type
@@ -189,7 +190,7 @@ void hyper_mat_mean(hyper_mat bip_mat, simple_mat dst_mat)
  **/
 void hyper_mat_transport(hyper_mat dst_mat, hyper_mat src_mat)
 {
-	hypercv_assert(src_mat != NULL, "input hyper mat must not be NULL");
+	hypercv_assert(src_mat != NULL && dst_mat != NULL, "input hyper mat must not be NULL");
 	hypercv_assert(cmpstr(src_mat->interleave, "bsq") == 1, "hyper mat interleave should be bsq");
 	int s_samples = src_mat->samples;
 	int d_samples = dst_mat->samples;
-- 
2.43.0


From 3a8646c5ff9dbf5195e8fad55873cc9cbcb78baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 106/121] fix: core refuses a missing path or mat instead of
 crashing

---
 modules/core/src/c_src/hypermat.c  | 2 ++
 modules/core/src/c_src/simplemat.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 0f98696..6aa2bfb 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -339,6 +339,8 @@ void hmsave(const char* image_path, hyper_mat mat)
  **/
 void writehdr(const char* img_path, int samples, int lines, int bands, int data_type, const char* interleave, float* wavelength)
 {
+	hypercv_assert(img_path != NULL, "image path can not be NULL");
+
 	const char* t = img_path;
 	int len = 0;
 
diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 337a6ce..63e3235 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -97,6 +97,8 @@ simple_mat smread(const char * image_path, int rows, int cols, int data_type, in
  **/
 simple_mat simple_mat_copy(simple_mat mat)
 {
+	hypercv_assert(mat != NULL, "input mat can not be NULL");
+
     int rows      = mat -> rows;
 	int cols      = mat -> cols;
 	int data_type = mat->data_type;
-- 
2.43.0


From 9c785641d60dbbebc6358e7d9e132c0c8e7bf673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 107/121] fix: filter2D and laplacian check the border type
 before they write

---
 modules/process/src/c_src/filter.c   | 5 +++++
 modules/process/src/c_src/gradient.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 31e5414..4689969 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -90,6 +90,11 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 	hypercv_assert(dst->data_type == 4,"dst data_type == float");
 	hypercv_assert(src->data_type == 1&&(src->channels == 1||src->channels == 3),"src must be a gray or rgb image of unsigned char");
 	hypercv_assert(src->rows == dst->rows&&src->cols == dst->cols&&src->channels == dst->channels,"src mat size == dst mat size");
+	hypercv_assert(border_type == BORDER_REFLECT
+			||border_type == BORDER_REFLECT_101
+			||border_type == BORDER_REPLICATE
+			||border_type == BORDER_WRAP
+			||border_type == BORDER_CONSTANT ,"Unknown/unsupported border type" );
 
 	int rows = src->rows;
 	int cols = src->cols;
diff --git a/modules/process/src/c_src/gradient.c b/modules/process/src/c_src/gradient.c
index 76d09dd..e986824 100644
--- a/modules/process/src/c_src/gradient.c
+++ b/modules/process/src/c_src/gradient.c
@@ -19,6 +19,11 @@ void hypercv_laplacian(simple_mat src, simple_mat dst, int k_size, int border_ty
 	hypercv_assert(k_size>0,"kernel size > 0");
 	hypercv_assert(src->data_type == 1&&src->channels == 1&&dst->data_type == 1&&dst->channels == 1,"only use in gray image of unsigned char");
 	hypercv_assert(src->rows == dst->rows&&src->cols == dst->cols, "src size == dst size");
+	hypercv_assert(border_type == BORDER_REFLECT
+			||border_type == BORDER_REFLECT_101
+			||border_type == BORDER_REPLICATE
+			||border_type == BORDER_WRAP
+			||border_type == BORDER_CONSTANT ,"Unknown/unsupported border type" );
 	int cols = src->cols;
 	int rows = src->rows;
 	int channels = src->channels;
-- 
2.43.0


From c4da6aacb43c4a8aa401e7aa13b85a1b7499c4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 108/121] fix: saving reports when a file could not be written
 completely

---
 modules/core/include/cxx_include/hypermat.hpp |  9 ++++++---
 modules/core/src/c_src/hypermat.c             | 10 +++++++---
 modules/core/src/c_src/simplemat.c            |  4 +++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index c0d9d91..a4912ae 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -263,9 +263,10 @@ namespace hypercv
 			printf("can not open files\n");
 			return;
 		}
-		fwrite(data, elemSize, (long int)samples * lines * bands, _fp);
+		long int writeSize = fwrite(data, 1, dataSize, _fp);
 		this->writeHdr(filePath);
-		fclose(_fp);
+		if(fclose(_fp) != 0 || writeSize != dataSize)
+			printf("fail to write the image file\n");
 
 	}
 
@@ -304,7 +305,9 @@ namespace hypercv
 		{
 			fputs("wavelength = unknown \n",fp);
 		}
-		fclose(fp);
+		int writeErr = ferror(fp);
+		if(fclose(fp) != 0 || writeErr != 0)
+			printf("fail to write the hdr file\n");
 	}
 
 	inline void HyMat::open(const char* imagePath, const char* hdrPath)
diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 6aa2bfb..8d4fd34 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -321,9 +321,11 @@ void hmsave(const char* image_path, hyper_mat mat)
 	FILE* image_fp;
 	image_fp = fopen(image_path, "wb");
 	hypercv_assert(image_fp != NULL, "can not open files");
-	fwrite(mat->data, elemsize, (long int)samples * lines * bands, image_fp);
+	long int data_size = (long int)samples * lines * bands;
+	long int write_size = fwrite(mat->data, elemsize, data_size, image_fp);
 	writehdr(image_path, samples, lines, bands, mat->data_type, mat->interleave,mat->wavelength);
-	fclose(image_fp);
+	int close_res = fclose(image_fp);
+	hypercv_assert(write_size == data_size && close_res == 0, "fail to write the image file");
 
 }
 
@@ -384,7 +386,9 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 	{
 		fputs("wavelength = unknown \n",fp);
 	}
-	fclose(fp);
+	int write_err = ferror(fp);
+	int close_res = fclose(fp);
+	hypercv_assert(write_err == 0 && close_res == 0, "fail to write the hdr file");
 }
 
 
diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 63e3235..63f541f 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -253,7 +253,9 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 	if(mat != src_mat)
 		delete_simple_mat(mat);
 
-	fclose(fp);
+	int write_err = ferror(fp);
+	int close_res = fclose(fp);
+	hypercv_assert(write_err == 0 && close_res == 0, "fail to write the bmp file");
 }
 
 /**
-- 
2.43.0


From 8180aab7da227e5c89cd0bf72ae58681425e0736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 109/121] fix: lines inside the braces of other header fields
 are not read as fields

---
 modules/core/src/c_src/hypermat.c     | 5 +++++
 modules/core/src/cxx_src/hypermat.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 8d4fd34..323658b 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -128,6 +128,11 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 			free(wave_text);
 			wave_text = w;
 		}
+		else if (line[0] != ';' && sscanf(line, "%*[^=]= %1[{]", item) == 1)
+		{
+			// the lines of any other list are no fields
+			while (strchr(line, '}') == NULL&&fgets(line, MAXLINE, hdr_fp) != 0);
+		}
 	}
 
 	if (wave_text != NULL && bandtemp > 0)
diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index 8ef4216..9cd808b 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -107,6 +107,11 @@ namespace hypercv
 				}
 				while(lineBuff.find('}')==lineBuff.npos&&getline(file,lineBuff));
 			}
+			else if (line[0] != ';' && sscanf(line, "%*[^=]= %1[{]", item) == 1)
+			{
+				// the lines of any other list are no fields
+				while(lineBuff.find('}')==lineBuff.npos&&getline(file,lineBuff));
+			}
 		}
 
 		file.close();
-- 
2.43.0


From 1dbbd302d7bdd87b96413ea0e6e3d44a75ce57b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 110/121] fix: a header that cannot be read to its end gives no
 cube

---
 modules/core/src/c_src/hypermat.c     | 9 +++++++++
 modules/core/src/cxx_src/hypermat.cpp | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 323658b..dd2f8da 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -251,7 +251,16 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	else
 		readhdr(hdr_fp, &samples, &lines,&bands, &data_type, interleave, &wavelength);
 
+	int hdr_err = ferror(hdr_fp);
 	fclose(hdr_fp);
+
+	if (hdr_err != 0)
+	{
+		printf("fail to read the hdr file\n");
+		free(wavelength);
+		fclose(image_fp);
+		return 0;
+	}
 	
 	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, NULL, wavelength);
 	free(wavelength);
diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index 9cd808b..f9f7af9 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -114,6 +114,13 @@ namespace hypercv
 			}
 		}
 
+		if(file.bad())
+		{
+			printf("fail to read the hdr file\n");
+			samples = lines = bands = 0;
+			waveBuff.clear();
+		}
+
 		file.close();
 
 		free(wavelength);
-- 
2.43.0


From b888d0494960c7e8fd4730b62697efdf3dbd9d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 111/121] fix: a spectrum file that cannot be read gives no
 spectrum

---
 modules/process/src/c_src/spectralprocess.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index d59ec87..930a011 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -125,8 +125,12 @@ float* read_spectrum_file(const char* sp_path, int length)
 	while (count < length && fscanf(fp, "%f", spectrum + count) == 1)
 		count++;
 
+	int err = ferror(fp);
 	fclose(fp);
 
+	if (err != 0)
+		count = 0;
+
 	if (count < length)
 	{
 		printf("the spectrum file has less values than its length\n");
-- 
2.43.0


From f730f6c5399e84d3dbc8195cebc1829b701052c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:44 +0000
Subject: [PATCH 112/121] fix: allocations that fail are reported where they
 were used unchecked

---
 modules/algorithm/src/cem.c                   | 1 +
 modules/algorithm/src/cluster.c               | 1 +
 modules/algorithm/src/pca.c                   | 1 +
 modules/core/include/cxx_include/hypermat.hpp | 1 +
 modules/core/src/c_src/hypermat.c             | 1 +
 modules/process/src/c_src/filter.c            | 1 +
 modules/process/src/c_src/matrixprocess.c     | 3 +++
 modules/process/src/c_src/spectralprocess.c   | 2 ++
 8 files changed, 11 insertions(+)

diff --git a/modules/algorithm/src/cem.c b/modules/algorithm/src/cem.c
index b04de39..762bc88 100644
--- a/modules/algorithm/src/cem.c
+++ b/modules/algorithm/src/cem.c
@@ -43,6 +43,7 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 	float* fir1 = (float*)malloc(bands * sizeof(float));
 	float* fir2 = (float*)malloc(bands * sizeof(float));
 	float* fir3 = (float*)malloc(sizeof(float));
+	hypercv_assert(fir1 != NULL && fir2 != NULL && fir3 != NULL, "malloc fail");
 
 	MulMatrix_float(invdata, spectral, fir1, bands, bands, 1);
 	MulMatrix_float(spectral, invdata, fir2, 1, bands, bands);
diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 18847b5..b46508d 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -44,6 +44,7 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 	//the sum of the positions of a large cluster exceeds an int
 	long long* sum_x = (long long*)calloc(kind, sizeof(long long));
 	long long* sum_y = (long long*)calloc(kind, sizeof(long long));
+	hypercv_assert(v2 != NULL && num != NULL && sum_x != NULL && sum_y != NULL, "malloc fail");
  
 	srand((unsigned)time(NULL));
 
diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index 87880ce..d926a0f 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -63,6 +63,7 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 	}
 	//计算特征值，特征向量
 	float* evalue = (float*)malloc(bands*sizeof(float));
+	hypercv_assert(evalue != NULL, "malloc fail");
 
 	for(int k=0;k<bands;k++)
 		evalue[k] = ((float*)temp->data)[k*bands+k];
diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index a4912ae..44687fb 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -366,6 +366,7 @@ namespace hypercv
 
 		char* srcData = (char*)data;
 		char* dstData = (char*)malloc(dataSize);
+		hypercv_assert(dstData != NULL, "malloc fail");
 
 		long int samples = this->samples, lines = this->lines, bands = this->bands;
 		long int dstIndex, srcIndex; 
diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index dd2f8da..77eb65e 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -366,6 +366,7 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 	}
 
 	char* hdr_path = (char*)malloc((len + 5)*sizeof(char));
+	hypercv_assert(hdr_path != NULL, "malloc fail");
 
 	for (int i = 0; i < len; i++)
 		hdr_path[i] = img_path[i];
diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 4689969..ab58314 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -167,6 +167,7 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 	unsigned char* src_data = (unsigned char*) src_mat->data;
 	unsigned char* dst_data = (unsigned char*) dst_mat->data;
 	unsigned char* arr = (unsigned char*) malloc(size*size*sizeof(char));
+	hypercv_assert(arr != NULL, "malloc fail");
 
 	for(int i=0;i<rows;i++)
 	{
diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index c6bd2af..7eba54a 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -249,6 +249,7 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 {
 	float* col_a = (float*)malloc(m*sizeof(float));
 	float* col_q = (float*)malloc(m*sizeof(float));
+	hypercv_assert(col_a != NULL && col_q != NULL, "malloc fail");
 
 	for (int j=0;j<m;j++)
 	{
@@ -281,6 +282,7 @@ void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m
 {
 	float* temp = (float*)malloc(m*n*sizeof(float));
 	int* order = (int*)malloc(n*sizeof(int));
+	hypercv_assert(temp != NULL && order != NULL, "malloc fail");
 	float evalue ;
 
 	for(int count =0;count < n;count++)
@@ -432,6 +434,7 @@ void swap_rows_float(float* data, int m,int n, int r1, int r2)
 	hypercv_assert(r1!=r2,"select row can not equal");
 
 	float* tmp =(float*)malloc(n*sizeof(float));
+	hypercv_assert(tmp != NULL, "malloc fail");
 	float* dr1 = data + r1*n;
 	float* dr2 = data + r2*n;
 
diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 930a011..4cb9ab4 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -54,6 +54,7 @@ simple_mat spectrum_SAM_match(hyper_mat bip_mat, float* spectrum, float threshol
 	char*  smat;
 
 	float* temp = (float*)malloc(sizeof(float)*bands);
+	hypercv_assert(temp != NULL, "malloc fail");
 
 	for (int i = 0; i < lines; i++)
 	{
@@ -119,6 +120,7 @@ float* read_spectrum_file(const char* sp_path, int length)
 	hypercv_assert(fp != NULL, "can not open files");
 
 	float* spectrum = (float*)malloc(length*sizeof(float));
+	hypercv_assert(spectrum != NULL, "malloc fail");
 
 	int count = 0;
 
-- 
2.43.0


From d357926cee5000485703b19d2f724f3c171770a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 113/121] fix: rotation of cubes of more than 2^31 bytes
 computed byte offsets in int

---
 modules/process/src/c_src/GeometricTransformation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 5bd9c3f..143cacd 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -194,8 +194,8 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 			int y = floor((j+0.5-w) * c - (i+0.5-h) * s + width/2.0);
 			if(x < 0 || x >= height || y < 0 || y >= width)
 				continue;
-			int dstOft = (x * width + y) * mat->bands * elem_size;
-			int srcOft = (i * mat->samples + j) * mat->bands * elem_size;
+			long int dstOft = ((long int)x * width + y) * mat->bands * elem_size;
+			long int srcOft = ((long int)i * mat->samples + j) * mat->bands * elem_size;
 			unsigned char* src = src_data + srcOft;
 			unsigned char* dst = dst_data + dstOft;
 			memcpy(dst,src,mat->bands*elem_size);
-- 
2.43.0


From 6ffd685d2ca9a454a1baf5cffb0f07abd6a2927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 114/121] fix: flips of mats of more than 2^31 bytes computed
 byte offsets in int

---
 modules/process/src/c_src/GeometricTransformation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 143cacd..43e4d92 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -12,7 +12,7 @@ void simple_mat_flip_horizontal(simple_mat src_mat,simple_mat dst_mat)
 	
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
-	int channels = src_mat->channels;
+	long int channels = src_mat->channels;
 	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels && src_mat->data_type == dst_mat->data_type,"src_mat size != dst_mat size");
 
 	channels = channels * get_elemsize(src_mat->data_type);
@@ -33,7 +33,7 @@ void simple_mat_flip_vertical(simple_mat src_mat,simple_mat dst_mat)
 	
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
-	int channels = src_mat->channels;
+	long int channels = src_mat->channels;
 	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels && src_mat->data_type == dst_mat->data_type,"src_mat size != dst_mat size");
 
 	channels = channels * get_elemsize(src_mat->data_type);
-- 
2.43.0


From abe555f3d8f083775c602de0854d8bf73eb462c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 115/121] fix: transport of cubes of more than 2^31 bytes
 computed byte offsets in int

---
 modules/process/src/c_src/spectralprocess.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 4cb9ab4..10f73d0 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -198,10 +198,10 @@ void hyper_mat_transport(hyper_mat dst_mat, hyper_mat src_mat)
 {
 	hypercv_assert(src_mat != NULL && dst_mat != NULL, "input hyper mat must not be NULL");
 	hypercv_assert(cmpstr(src_mat->interleave, "bsq") == 1, "hyper mat interleave should be bsq");
-	int s_samples = src_mat->samples;
-	int d_samples = dst_mat->samples;
-	int s_lines = src_mat->lines;
-	int d_lines = dst_mat->lines;
+	long int s_samples = src_mat->samples;
+	long int d_samples = dst_mat->samples;
+	long int s_lines = src_mat->lines;
+	long int d_lines = dst_mat->lines;
 	int bands = src_mat->bands;
 	hypercv_assert(s_samples == d_lines && s_lines == d_samples&& bands == dst_mat->bands && src_mat->data_type == dst_mat->data_type,"size must equal");
 	char* src =(char*)src_mat->data;
-- 
2.43.0


From 7e594d0d491c04381ceb3062281276260c57a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 116/121] fix: the mean of cubes of more than 2^31 samples
 computed indexes in int

---
 modules/process/src/c_src/spectralprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 10f73d0..7741117 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -169,9 +169,9 @@ void hyper_mat_mean(hyper_mat bip_mat, simple_mat dst_mat)
 {
 	hypercv_assert(bip_mat != NULL, "input hyper mat must not be NULL");
 	hypercv_assert(cmpstr(bip_mat->interleave, "bip") == 1, "hyper mat interleave should be bip");
-	int samples = bip_mat -> samples;
+	long int samples = bip_mat -> samples;
 	int lines = bip_mat -> lines;
-	int bands = bip_mat -> bands;
+	long int bands = bip_mat -> bands;
 	hypercv_assert(dst_mat != NULL && dst_mat->channels == 1, "result must be a simple mat of one channel");
 	hypercv_assert(samples == dst_mat -> cols&&lines == dst_mat->rows,"dst_mat size == bip_mat size");
 	hypercv_assert(bip_mat->data_type == 4 && dst_mat->data_type == 4,"simple mat datatype ==4");
-- 
2.43.0


From bc4620415a835aa0e4ac1be2b7057db3951d2b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 117/121] fix: corrections of cubes of more than 2^31 samples
 computed indexes in int

---
 modules/process/src/c_src/RadiometricCalibration.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/RadiometricCalibration.c b/modules/process/src/c_src/RadiometricCalibration.c
index 658264e..53ced08 100644
--- a/modules/process/src/c_src/RadiometricCalibration.c
+++ b/modules/process/src/c_src/RadiometricCalibration.c
@@ -11,9 +11,9 @@ hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 	hypercv_assert(bip_mat != NULL && coefficient != NULL, "input can not be NULL");
 	hypercv_assert(bip_mat->data_type == 12 && cmpstr(bip_mat->interleave,"bip") == 1, "input hyper mat must be bip unsigned short");
 
-	int samples = bip_mat->samples;
+	long int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
-	int bands = bip_mat->bands;
+	long int bands = bip_mat->bands;
 
 	unsigned short * bipdata = (unsigned short*)bip_mat->data;
 
@@ -46,9 +46,9 @@ hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 	hypercv_assert(bip_mat != NULL && coefficient != NULL, "input can not be NULL");
 	hypercv_assert(bip_mat->data_type == 4 && cmpstr(bip_mat->interleave,"bip") == 1, "input hyper mat must be bip float");
 
-	int samples = bip_mat->samples;
+	long int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
-	int bands = bip_mat->bands;
+	long int bands = bip_mat->bands;
 
 	float* bipdata = (float*)bip_mat->data;
 
-- 
2.43.0


From 440f524ad99f874adea3a42eebb751a58ae7f21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 118/121] fix: tension of cubes of more than 2^31 samples
 computed indexes in int

---
 modules/algorithm/src/HisEqualization.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index 14a02d9..ce7d417 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -41,7 +41,7 @@ void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 {
 	hypercv_assert(bsq_mat!=NULL&&dst_mat!=NULL,"input mat could not be NULL");
 	hypercv_assert(cmpstr(bsq_mat->interleave,"bsq")==1,"input src mat must be bsq");
-	int samples = bsq_mat -> samples;
+	long int samples = bsq_mat -> samples;
 	int lines = bsq_mat -> lines;
 	int bands = bsq_mat -> bands;
 	hypercv_assert(dst_mat->samples == samples&& dst_mat->lines == lines&&dst_mat->bands == bands,"src mat size == dst mat size");
-- 
2.43.0


From 2e5e06ca72888fdda60e979e5710c21e82bf8531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:59 +0000
Subject: [PATCH 119/121] fix: Otsu of colour images weighted red as blue

---
 modules/process/src/c_src/threshold.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/threshold.c b/modules/process/src/c_src/threshold.c
index 66aafa4..756a36b 100644
--- a/modules/process/src/c_src/threshold.c
+++ b/modules/process/src/c_src/threshold.c
@@ -38,7 +38,7 @@ int otsuThreshold(simple_mat img)
 			if(channels == 1)
 				temp = data[i*step + j];
 			else
-				temp = data[i*step + j * 3] * 0.114 + data[i*step + j * 3+1] * 0.587 + data[i*step + j * 3+2] * 0.299;
+				temp = data[i*step + j * 3] * 0.299 + data[i*step + j * 3+1] * 0.587 + data[i*step + j * 3+2] * 0.114;
 			temp = temp<0? 0:temp;
 			temp = temp>255? 255:temp;
 			Histogram[(int)temp]++;
-- 
2.43.0


From d3e2ebeb6bb86b446ec22ffc761cd408a4d12815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 120/121] fix: type conversions of more than 2^31 samples
 computed sizes in int

---
 modules/process/src/c_src/datatypechange.c | 46 +++++++++++-----------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index 0be2b6a..c3456d2 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -34,9 +34,9 @@ hyper_mat hyper_mat_uchar2short(hyper_mat uc_mat)
 	short * data = (short*)dst->data;
 	unsigned char* uc_data = (unsigned char*)uc_mat->data;
 
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 		data[i]=uc_data[i];
 
 	if(uc_mat->wavelength != NULL)
@@ -63,9 +63,9 @@ hyper_mat hyper_mat_uchar2int(hyper_mat uc_mat)
 	int* data = (int*)dst->data;
 	unsigned char* uc_data = (unsigned char*)uc_mat->data;
 
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 		data[i]=uc_data[i];
 	
 	if(uc_mat->wavelength != NULL)
@@ -92,9 +92,9 @@ hyper_mat hyper_mat_uchar2float(hyper_mat uc_mat)
 	float* data = (float*)dst->data;
 	unsigned char* uc_data = (unsigned char*)uc_mat->data;
 
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 		data[i]=uc_data[i]*1.0;
 	
 	if(uc_mat->wavelength != NULL)
@@ -121,9 +121,9 @@ hyper_mat hyper_mat_uchar2ushort(hyper_mat uc_mat)
 	unsigned short* data = (unsigned short*)dst->data;
 	unsigned char*  uc_data = (unsigned char*)uc_mat->data;
 
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 		data[i]=uc_data[i];
 	
 	if(uc_mat->wavelength != NULL)
@@ -150,9 +150,9 @@ hyper_mat hyper_mat_float2int(hyper_mat f_mat)
 	int * data = dst->data;
 	float* fdata = f_mat->data;
 
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 		data[i]=HYPERCV_ROUND(clamp_value(fdata[i],-2147483648.0,2147483647.0));
 	
 	if(f_mat->wavelength != NULL)
@@ -178,8 +178,8 @@ hyper_mat hyper_mat_float2char(hyper_mat f_mat)
 	char* data = dst->data;
 	float* fdata = f_mat->data;
 	int tmp = 0;
-	int datasize = samples*lines*bands;
-	for(int i=0;i<datasize;i++)
+	long int datasize = (long int)samples*lines*bands;
+	for(long int i=0;i<datasize;i++)
 	{
 		tmp = HYPERCV_ROUND(clamp_value(fdata[i],-128,127));
 		data[i] = tmp;
@@ -208,9 +208,9 @@ hyper_mat hyper_mat_float2short(hyper_mat f_mat)
 	short* data = dst->data;
 	float* fdata = f_mat->data;
 	int tmp = 0;
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 		data[i] =(short)HYPERCV_ROUND(clamp_value(fdata[i],-32768,32767));
 		
 	if(f_mat->wavelength != NULL)
@@ -236,8 +236,8 @@ hyper_mat hyper_mat_float2ushort(hyper_mat f_mat)
 	unsigned short* data = dst->data;
 	float* fdata = f_mat->data;
 	int tmp = 0;
-	int datasize = samples*lines*bands;
-	for(int i=0;i<datasize;i++)
+	long int datasize = (long int)samples*lines*bands;
+	for(long int i=0;i<datasize;i++)
 	{
 		tmp = HYPERCV_ROUND(clamp_value(fdata[i],0,65535));
 		data[i] = tmp;
@@ -266,8 +266,8 @@ hyper_mat hyper_mat_float2uchar(hyper_mat f_mat)
 	unsigned char* data = dst->data;
 	float* fdata = f_mat->data;
 	int tmp = 0;
-	int datasize = samples*lines*bands;
-	for(int i=0;i<datasize;i++)
+	long int datasize = (long int)samples*lines*bands;
+	for(long int i=0;i<datasize;i++)
 	{
 		tmp = HYPERCV_ROUND(clamp_value(fdata[i],0,255));
 		data[i] = tmp;
@@ -295,8 +295,8 @@ hyper_mat hyper_mat_float2uint(hyper_mat f_mat)
 
 	unsigned int * data = dst->data;
 	float* fdata = f_mat->data;
-	int datasize = samples*lines*bands;
-	for(int i=0;i<datasize;i++)
+	long int datasize = (long int)samples*lines*bands;
+	for(long int i=0;i<datasize;i++)
 		data[i] = (unsigned int)llrint(clamp_value(fdata[i],0,4294967295.0));
 
 	if(f_mat->wavelength != NULL)
@@ -324,9 +324,9 @@ hyper_mat hyper_mat_ushort2float(hyper_mat us_mat)
 	float* fdata = dst->data;
 
 	int tmp = 0;
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 	{
 		fdata[i] = usdata[i]*1.0;
 	}
@@ -359,7 +359,7 @@ simple_mat simple_mat_float2uchar(simple_mat src)
 	   for(int j=0;j<cols;j++)
 	   maxpix = maxpix>src_data[i*cols+j]?maxpix:src_data[i*cols+j];
 	   */
-	for(int i=0;i<rows*cols*cn;i++)
+	for(long int i=0;i<(long int)rows*cols*cn;i++)
 	{
 		dst_data[i] = HYPERCV_ROUND(clamp_value(src_data[i],0,255));
 	}
-- 
2.43.0


From 644c6c2c1a65190b3b1845903fd5312ad51fa87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 121/121] fix: SAM match of cubes of more than 2^31 samples
 computed indexes in int

---
 modules/process/src/c_src/spectralprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 7741117..302e41f 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -60,7 +60,7 @@ simple_mat spectrum_SAM_match(hyper_mat bip_mat, float* spectrum, float threshol
 	{
 		for (int j = 0; j < samples; j++)
 		{
-			bip =(float*)bip_mat -> data + i * samples * bands + j * bands;
+			bip =(float*)bip_mat -> data + ((long int)i * samples + j) * bands;
 			for (int k = 0; k < bands; k++ )
 				temp[k] = bip[k];
 
-- 
2.43.0


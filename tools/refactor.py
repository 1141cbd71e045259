"""Maintenance only: builds /tmp/rf, a copy of /repo rewritten by hand without changing behaviour
(other loop orders, helpers, wider accumulators, memcpy for loops, other allocation orders, header lines in another order ...).
Every check has to stay quiet on it:  REPO=/tmp/rf HV_NOEV=1 python3 run.py Cxx quick"""
import subprocess,shutil,os
W='/tmp/rf'
shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
subprocess.run("cd /repo && tar c --exclude=.git --exclude=_build . | tar x -C "+W,shell=True)
K='modules/core/src/c_src/'; P='modules/process/src/c_src/'; A='modules/algorithm/src/'; G='modules/highgui/src/'; HX='modules/core/include/cxx_include/hypermat.hpp'; HC='modules/core/src/cxx_src/hypermat.cpp'; V='modules/core/include/c_include/vector.h'
def e(f,*prs):
    p=W+'/'+f; raw=open(p,'rb').read().decode('utf8','surrogateescape'); crlf='\r\n' in raw
    s=raw.replace('\r\n','\n')
    for o,n in prs:
        if o not in s: print('NOMATCH',f,o[:60]); continue
        s=s.replace(o,n)
    if crlf: s=s.replace('\n','\r\n')
    open(p,'wb').write(s.encode('utf8','surrogateescape'))
# median by counting, mean by clipped bounds
e(P+'filter.c',('''	for(int gap = size/2; gap>0; gap/=2)
		for(int i=gap; i<size; i++)
			for(int j=i-gap; j>=0 && array[j]>array[j+gap]; j-=gap)
				swap(&array[j],&array[j+gap]);
	return array[size/2]; ''','''	int counts[256] = {0};
	for(int i=0; i<size; i++)
		counts[array[i]]++;
	int seen = 0;
	for(int v=0; v<256; v++)
	{
		seen += counts[v];
		if(seen > size/2)
			return v;
	}
	return 255;'''),
('''			for(int m = -size/2;m<size-size/2;m++)
			{
				for(int n = -size/2; n<size-size/2;n++)
				{
					if((i+m)>=0&&(i+m)<rows&&(j+n)>=0&&(j+n)<cols)
					{
						sum+= src_data[(i+m)*cols+j+n];
						num++;	 
					}

				}
			}
''','''			int top = i-size/2 < 0 ? 0 : i-size/2, end = i-size/2+size > rows ? rows : i-size/2+size;
			int left = j-size/2 < 0 ? 0 : j-size/2, right = j-size/2+size > cols ? cols : j-size/2+size;
			for(int m=top; m<end; m++)
				for(int n=left; n<right; n++)
					sum += src_data[m*cols+n];
			num = (end-top)*(right-left);
'''),
('''			for(int t=0; t<cn; t++)
				dst_data[i*cols*cn+j*cn+t] = 0;
''','''			double acc[3] = {0,0,0};
'''),
('''					if (cn == 1)
						dst_data[i*cols+j] += (kernel[m*k_cols+n]*src_data[index_i*cols+index_j]);

					else if (cn == 3)
					{
						dst_data[i*cols*cn+j*cn] += (kernel[m*k_cols+n]*src_data[index_i*cols*cn+(index_j)*cn]);
						dst_data[i*cols*cn+j*cn+1] += (kernel[m*k_cols+n]*src_data[index_i*cols*cn+(index_j)*cn+1]);
						dst_data[i*cols*cn+j*cn+2] += (kernel[m*k_cols+n]*src_data[index_i*cols*cn+(index_j)*cn+2]);
					}
				}
			}
''','''					for(int t=0; t<cn; t++)
						acc[t] += kernel[m*k_cols+n]*src_data[(index_i*cols+index_j)*cn+t];
				}
			}
			for(int t=0; t<cn; t++)
				dst_data[(i*cols+j)*cn+t] = acc[t];
'''),
('''			float sum[3] = {0.0,0.0,0.0};''','''			double sum[3] = {0.0,0.0,0.0};'''),
('''	simple_mat kernel_mat_x = gaussian_kernel(ksize_width, sigma1, kdepth);
	simple_mat kernel_mat_y = gaussian_kernel(ksize_height,sigma2, kdepth);
''','''	simple_mat kernel_mat_y = gaussian_kernel(ksize_height,sigma2, kdepth);
	simple_mat kernel_mat_x = gaussian_kernel(ksize_width, sigma1, kdepth);
'''))
# morphology: early exit
e(P+'morphology.c',('''				for(int m=0; m<height; m++)
				{
					for(int n=0; n<width; n++)
					{
						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
						{
							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
								flag = 1;
						}
					}
				}
''','''				int inside = i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols;
				for(int m=0; inside && !flag && m<height; m++)
				{
					const unsigned char* line = src + (i-height/2+m)*cols + j-width/2;
					for(int n=0; n<width && !flag; n++)
						flag = sd[m*width+n]==1 && line[n]==0;
				}
'''))
# dft: tables of twiddles
e(A+'dft.c',('''				temp = (double)i*x/rows + (double)j*y/cols;
					re += src_data[x*cols+y]*cos(-2*PI*temp);
					im += src_data[x*cols+y]*sin(-2*PI*temp);''','''				double turns = (double)((long long)i*x%rows)/rows + (double)((long long)j*y%cols)/cols;
					re += src_data[x*cols+y]*cos(2*PI*turns);
					im -= src_data[x*cols+y]*sin(2*PI*turns);'''))
# spectral: reverse order, one distance helper
e(P+'spectralprocess.c',('''	double sum = 0;
	for (int i = 0; i<length; i++)
		sum += x[i];
	return sum / length;''','''	double total = 0;
	for (int i = length - 1; i >= 0; i--)
		total += x[i];
	return (float)(total / length);'''),
('''	float* temp = (float*)malloc(sizeof(float)*bands);
	hypercv_assert(temp != NULL, "malloc fail");
''',''),('''			for (int k = 0; k < bands; k++ )
				temp[k] = bip[k];

			float res =	spectral_angle_mapper(temp ,spectrum, bands);''','''			float res = spectral_angle_mapper(bip, spectrum, bands);'''),('	free(temp);\n\n	return match_image;','	return match_image;'),
('''	double cosine = XY / (sqrt(X) * sqrt(Y));

	res = acos(cosine > 1.0 ? 1.0 : cosine);
''','''	double norm = sqrt(X) * sqrt(Y);
	double cosine = XY / norm;
	if (cosine > 1.0)
		cosine = 1.0;

	res = acos(cosine);
'''),
('''		temp += ((double)x[i] - y[i])*((double)x[i] - y[i]);
''','''	{
		double d = (double)y[i] - x[i];
		temp += d*d;
	}
'''),
('''				for(int t=0;t<elemsize;t++)
				dst[k*d_samples*d_lines*elemsize+i*d_samples*elemsize+j*elemsize+t] = src[k*s_samples*s_lines*elemsize+j*s_samples*elemsize+i*elemsize+t];''','''				memcpy(dst + ((k*d_lines+i)*d_samples+j)*elemsize, src + ((k*s_lines+j)*s_samples+i)*elemsize, elemsize);'''))
# pca / matrix: double sums
e(P+'matrixprocess.c',('''	float ans = 0.0;
	for(int i=0;i<size;i++)
		ans+=m[i]*m[i];
	ans = (float)sqrt(ans);
	return ans;''','''	double ans = 0.0;
	for(int i=0;i<size;i++)
		ans += (double)m[i]*m[i];
	return (float)sqrt(ans);'''))
e(A+'pca.c',('''		double mean = 0;
		for(int i=0;i<pixels;i++)
			mean += x_data[i*bands+j];
		mean /= pixels;
''','''		double mean = 0;
		for(int i=pixels-1;i>=0;i--)
			mean += x_data[i*bands+j];
		mean = mean / pixels;
'''),('''	//特征值排序
	sort_array_down_float(evalue,bands);

	simple_mat eigen_vector = simple_mat_copy(q_mat);
''','''	sort_array_down_float(evalue,bands);

	simple_mat eigen_vector = create_simple_mat(bands, bands, 4, 1);
'''))
# k-means: integer distance computed once, comparisons kept
e(A+'cluster.c',('''	return pow((p.x-j),2) + pow((p.y-i),2);''','''	int dx = p.x - j, dy = p.y - i;
	return dx*dx + dy*dy;'''),
('''						if(distance(v1[k], i, j) < min_distance)
						{
							min_distance = distance(v1[k], i, j);''','''						int d = distance(v1[k], i, j);
						if(d < min_distance)
						{
							min_distance = d;'''),
('''	POINT* v2 = (POINT*)malloc(kind * sizeof(POINT)); 

	int* num = (int*)malloc(kind * sizeof(int));	
''','''	int* num = (int*)calloc(kind, sizeof(int));	
	POINT* v2 = (POINT*)calloc(kind, sizeof(POINT)); 
'''))
# conversions by rows
e(P+'imageprocess.c',('''				for (int t=0; t<elem_size; t++)
					bsq_data[bsq_index + t] = bil_data[bil_index + t];''','''				memcpy(bsq_data + bsq_index, bil_data + bil_index, elem_size);'''))
# create by calloc; save by lines; header through a helper
e(K+'hypermat.c',('''	mat = (hyper_mat)malloc(sizeof(char) * memneeded);
''','''	mat = (hyper_mat)calloc(memneeded, sizeof(char));
'''),('	memset((void*)address, 0, mat_data_size);\n',''),('	memset((void*)address, 0, wave_data_size);\n',''),
('''	long int write_size = fwrite(mat->data, elemsize, data_size, image_fp);
''','''	long int write_size = 0;
	long int line_size = data_size / lines;
	for(int i=0; i<lines; i++)
		write_size += fwrite((char*)mat->data + i*line_size*elemsize, elemsize, line_size, image_fp);
'''),('''	fputs("samples = ", fp); fprintf(fp, "%d\\n", samples);
	fputs("lines = ", fp); fprintf(fp, "%d\\n", lines);
	fputs("bands = ", fp); fprintf(fp, "%d\\n", bands);
''','''	fprintf(fp, "samples = %d\\nlines = %d\\nbands = %d\\n", samples, lines, bands);
'''),('''		fputs("wavelength = { \\n", fp); 
		for(int i=0;i<bands-1;i++)
			fprintf(fp,"%f,",wavelength[i]);
		fprintf(fp,"%f}",wavelength[bands-1]);
''','''		fputs("wavelength = {\\n", fp);
		for(int i=0;i<bands;i++)
			fprintf(fp, i + 1 < bands ? "%f, " : "%f}\\n", wavelength[i]);
'''),('''	const char* t = img_path;
	int len = 0;

	while (*t++ != '\\0')
	{
		len++;
	}
''','''	int len = strlen(img_path);
'''),('''	for (int i = 0; i < len; i++)
		hdr_path[i] = img_path[i];

	hdr_path[len] = '.';
	hdr_path[len + 1] = 'h';
	hdr_path[len + 2] = 'd';
	hdr_path[len + 3] = 'r';
	hdr_path[len + 4] = '\\0';
''','''	sprintf(hdr_path, "%s.hdr", img_path);
'''),('''	image_fp = fopen( image_path, "r");
	hdr_fp = fopen(hdr_path, "r");

	if (image_fp == NULL || hdr_fp == NULL)
	{
		printf("can not open file\\n");
''','''	hdr_fp = fopen(hdr_path, "rb");
	image_fp = fopen( image_path, "rb");

	if (image_fp == NULL || hdr_fp == NULL)
	{
		fprintf(stderr, "can not open %s or %s\\n", image_path, hdr_path);
'''))
e(K+'simplemat.c',('''	unsigned char* pBmpBuf = (unsigned char *)malloc(lineByte);
	hypercv_assert(pBmpBuf != NULL, "malloc fail");
	fseek(fp, fileHead.bfOffBits, SEEK_SET);

	simple_mat res = create_simple_mat(bmpHeight,bmpWidth,1,3);
''','''	simple_mat res = create_simple_mat(bmpHeight,bmpWidth,1,3);
	unsigned char* pBmpBuf = (unsigned char *)calloc(1, lineByte);
	hypercv_assert(pBmpBuf != NULL, "malloc fail");
	hypercv_assert(fseek(fp, fileHead.bfOffBits, SEEK_SET) == 0, "BMP DATA IS DAMAGED");
'''),('''	unsigned char* line = (unsigned char*)calloc(lineByte, sizeof(unsigned char));
	hypercv_assert(line != NULL, "malloc fail");
	for(int i=height-1; i>=0; i--)
	{
		unsigned char* data = imgBuf + (long int)i*width*channels;
		for(int j=0; j<width; j++)
		{
			for(int k=0; k<channels; k++)
				line[j*channels + k] = data[j*channels + 2-k];
		}
		fwrite(line, lineByte, 1, fp);
	}
	free(line);
''','''	for(int i=height-1; i>=0; i--)
	{
		unsigned char* data = imgBuf + (long int)i*width*channels;
		int n = 0;
		for(int j=0; j<width; j++, n += 3)
		{
			fputc(data[j*3+2], fp);
			fputc(data[j*3+1], fp);
			fputc(data[j*3], fp);
		}
		for(; n<lineByte; n++)
			fputc(0, fp);
	}
'''),('infoHead.biXPelsPerMeter = 100;','infoHead.biXPelsPerMeter = 0;'))
# C++
e(HX,('''		long int readSize = fread(data, 1, dataSize, _fp);
''','''		long int readSize = (long int)fread(data, elemSize, dataSize / elemSize, _fp) * elemSize;
'''),('''		fputs("samples = ", fp); fprintf(fp, "%d\\n", samples);
		fputs("lines = ", fp); fprintf(fp, "%d\\n", lines);
''','''		fprintf(fp, "lines = %d\\n", lines);
		fprintf(fp, "samples   = %d\\n", samples);
'''),('''		this->CopyData(dstData, dataSize);
		free(dstData);
''','''		free(data);
		data = dstData;
'''))
e(HC,('''					for (int t=0; t<elemSize; t++)
						dstData[bilIndex + t] = matData[bsqIndex + t];''','''					std::copy(matData + bsqIndex, matData + bsqIndex + elemSize, dstData + bilIndex);'''),
('			char item[20];','			char item[32];'),('%19[^=]','%31[^=]'))
e(P+'threshold.c',('''	for (int i = 0;i<256;i++)
	{
		gSum0 = 0;
		gSum1 = 0;
''','''	double all = 0;
	for (int j = 0;j<256;j++)
		all += j*Histogram[j];
	gSum0 = 0;
	for (int i = 0;i<256;i++)
	{
'''),('''		for (int j = 0;j<=i;j++)
		{
			gSum0 += j*Histogram[j];
		}
''','''		gSum0 += i*Histogram[i];
'''),('''		for(int k = i+1;k<256;k++)
		{
			gSum1 += k*Histogram[k];
		}
''','''		gSum1 = all - gSum0;
'''),('		w1 = 1-w0;','		w1 = N1/N;'))
e(P+'matrixprocess.c',('''void MulMatrix_float(float *x,float *y, float* z, int m,int k,int n)
{
    for(int nm=0; nm<m; nm++)
        for(int nn=0; nn<n; nn++)
        {
            z[nm*n+nn] = 0;
            for(int nk=0; nk<k; nk++)
                z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
        }
}''','''void MulMatrix_float(float *x,float *y, float* z, int m,int k,int n)
{
    for(int nm=0; nm<m; nm++)
    {
        float* line = z + nm*n;
        memset(line, 0, n*sizeof(float));
        for(int nk=0; nk<k; nk++)
        {
            float f = x[nm*k+nk];
            for(int nn=0; nn<n; nn++)
                line[nn] += f*y[nk*n+nn];
        }
    }
}'''),('''void TransMatrix_short(short *x,short*z, int m, int n)
{
    for(int nm=0; nm<m; nm++)            //对原矩阵第nm行
        for(int nn=0; nn<n; nn++)        //对原矩阵第nn列
            z[nn*m+nm] = x[nm*n+nn];    //z矩阵第nn行第nm列
}''','''void TransMatrix_short(short *x,short*z, int m, int n)
{
    for(int nn=0; nn<n; nn++)
        for(int nm=0; nm<m; nm++)
            *z++ = x[nm*n+nn];
}'''),('''			r[k*m+j] = 0;
			r[j*m+k] = 0;
			for(int i1=0; i1<m;i1++)
				r[k*m+j]+=col_a[i1]*q[i1*m+k];
''','''			r[j*m+k] = 0;
			double dot = 0;
			for(int i1=0; i1<m;i1++)
				dot += (double)col_a[i1]*q[i1*m+k];
			r[k*m+j] = dot;
'''),('''	float* tmp =(float*)malloc(n*sizeof(float));
	hypercv_assert(tmp != NULL, "malloc fail");
	float* dr1 = data + r1*n;
	float* dr2 = data + r2*n;

	memcpy(tmp,dr1,n*sizeof(float));
	memcpy(dr1,dr2,n*sizeof(float));
	memcpy(dr2,tmp,n*sizeof(float));
	free(tmp);
''','''	for(int i=0;i<n;i++)
	{
		float t = data[r1*n+i];
		data[r1*n+i] = data[r2*n+i];
		data[r2*n+i] = t;
	}
'''),('''void set_identity_matrix_float(float* mat,int m)
{
	for(int i=0;i<m;i++)
	{	
		for(int j=0;j<m;j++)
		{
			if(i==j)
				mat[i*m+j] = 1.0;
			else
				mat[i*m+j] = 0.0;
		}
	}
}''','''void set_identity_matrix_float(float* mat,int m)
{
	memset(mat, 0, (size_t)m*m*sizeof(float));
	for(int i=0;i<m;i++)
		mat[i*m+i] = 1.0f;
}'''))
e(P+'mathprocess.c',('''	for(int i=0;i<n-1;++i)//n个数,总共需要进行n-1次
	{                 //n-1个数排完,第一个数一定已经归位
		//每次会将最大(升序)或最小(降序)放到最后面
		int f=1;//这里设置一个开关变量
		for(int j=0;j<n-i-1;++j)
		{
			if(a[j]<a[j+1])
			{
				float t;
				t=a[j];
				a[j]=a[j+1];
				a[j+1]=t;
				f=0;
			}
		}
		if(1==f)//f为1说明没进行过冒泡,说明序列有序
			break;//若序列有序,则跳出排序即可
	}
''','''	for(int i=1;i<n;i++)
	{
		float v = a[i];
		int j = i;
		for(;j>0&&a[j-1]<v;j--)
			a[j] = a[j-1];
		a[j] = v;
	}
'''),('''	long int m = 1;
	for(int i = 2 ; i <= n ; i++)
''','''	long int m = hypercv_factorial_tab[10];
	for(int i = 11 ; i <= n ; i++)
'''),('''	for(int i=0; i<len; i++)
		res+=t[i];
	res = res/len;
	return res;
''','''	for(int i=len-1; i>=0; i--)
		res+=t[i];
	return res/len;
'''))
e(A+'HisEqualization.c',('''	for(int i=1; i<256; i++)
		hist[i] += hist[i-1];

	for(int i=0; i<256; i++)
		hist[i] = (long long)hist[i]*255/(rows*cols);
	
	for(int i=0; i<rows*cols; i++)
		dst_data[i] = hist[data[i]];
''','''	unsigned char lut[256];
	long long cumulative = 0;
	for(int i=0; i<256; i++)
	{
		cumulative += hist[i];
		lut[i] = cumulative*255/(rows*cols);
	}

	for(int i=rows*cols; i-->0; )
		dst_data[i] = lut[data[i]];
'''),('''		for(int i=0; i<lines;i++)
		{
			for(int j=0; j<samples; j++)
			{
				tmp = srcdata[k*samples*lines+i*samples+j];
				if (maxdata<tmp)
				    maxdata = tmp;
				if(mindata>tmp)
					mindata = tmp;
			}
		}
''','''		for(long int i=1; i<samples*lines;i++)
		{
			tmp = srcdata[k*samples*lines+i];
			maxdata = tmp>maxdata ? tmp : maxdata;
			mindata = tmp<mindata ? tmp : mindata;
		}
'''),('''				if(res<=0)
				{
					if (tmp==0)
						dstdata[k*samples*lines+i*samples+j]=0;
					else
						dstdata[k*samples*lines+i*samples+j]=1;
				}
				else if(res>=255)
						dstdata[k*samples*lines+i*samples+j]=255;
				else
						dstdata[k*samples*lines+i*samples+j]=res;
''','''				if(res<=0)
					res = tmp != 0;
				dstdata[k*samples*lines+i*samples+j] = res>255 ? 255 : res;
'''))
e(A+'normalize.c',('''		float INF_norm = 0;
		for (int i =0;i< rows*cols*channels;i++ )
			INF_norm = fabs(src_data[i])>INF_norm?fabs(src_data[i]):INF_norm;
''','''		float INF_norm = fabsf(src_data[0]);
		for (int i =1;i< rows*cols*channels;i++ )
			INF_norm = fmaxf(INF_norm, fabsf(src_data[i]));
'''),('''			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
''','''			L1_norm += abs((int)src_data[i])==src_data[i] ? src_data[i] : fabs(src_data[i]);
'''),('''		for(int i=0;i<rows*cols*channels;i++)
			dst_data[i] = src_data[i]*alpha/sqrt(L2_norm);
''','''		double root = sqrt(L2_norm);
		for(int i=0;i<rows*cols*channels;i++)
			dst_data[i] = (double)(src_data[i]*alpha)/root;
'''),('''			dst_data[i] = saturate_cast_float2uchar((src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a);
''','''		{
			float v = (src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a;
			dst_data[i] = saturate_cast_float2uchar(v);
		}
'''))
e(P+'gradient.c',('''					if((i+m-1<0)||i+m-1>=rows)
						index_m = hypercv_border_Interpolate(i+m-1,rows,border_type);
					else
						index_m = i+m-1;
					if(j+n-1<0||j+n>cols)
						index_n = hypercv_border_Interpolate(j+n-1,cols,border_type);
					else
						index_n = j+n-1;

					if(index_m<0||index_n<0)
						continue;

					gradx += gx[m][n]*src_data[index_m*cols+index_n];
					grady += gy[m][n]*src_data[index_m*cols+index_n];
''','''					index_m = i+m-1;
					index_n = j+n-1;
					if(index_m<0||index_m>=rows)
						index_m = hypercv_border_Interpolate(index_m,rows,border_type);
					if(index_n<0||index_n>=cols)
						index_n = hypercv_border_Interpolate(index_n,cols,border_type);
					int p = index_m<0||index_n<0 ? 0 : src_data[index_m*cols+index_n];

					gradx += gx[m][n]*p;
					grady += gy[m][n]*p;
'''),('''	if(k_size == 2)
	{
		for(int i=0;i<3;i++)
			for(int j=0;j<3;j++)
				kernel[i][j] = kernel[i][j]*2;
	}
''','''	const int scale = k_size == 2 ? 2 : 1;
'''),('sum += kernel[m][n]*src_data','sum += scale*kernel[m][n]*src_data'))
e(A+'cem.c',('''	float* fir3 = (float*)malloc(sizeof(float));
''','''	float fir3_value = 0;
	float* fir3 = &fir3_value;
'''),('	free(fir3);fir3 = NULL;\n',''),('''	simple_mat t   = create_simple_mat(src->cols, src->rows, data_type, 1);
    simple_mat_transport(t, src);
''','''	simple_mat t   = create_simple_mat(samples*lines, bands, data_type, 1);
	simple_mat_transport(t, src);
'''))
e(A+'shapematch.c',('''	double* hu1 = (double*)malloc(7*sizeof(double));
	double* hu2 = (double*)malloc(7*sizeof(double));
''','''	double hu1[7], hu2[7];
'''),('''	free(hu1);
	free(hu2);
''',''),('''	u20=m20/pow(m00,2); 
''','''	u20=m20/(m00*m00); 
'''),('''	u02=m02/pow(m00,2); 
''','''	u02=m02/m00/m00; 
'''),('u30=m30/pow(m00,2.5)','u30=m30/(m00*m00*sqrt(m00))'))
e(A+'EdgeSignalEnergy.c',('r+=pow(res_data[i*cols+j],2);','r+=(double)res_data[i*cols+j]*res_data[i*cols+j];'))
e(P+'GeometricTransformation.c',('''			for(int k=0;k<channels;k++)
			dst_data[i*cols*channels+j*channels+k] = src_data[i*cols*channels+(cols-1-j)*channels+k];
''','''			memcpy(dst_data + (i*cols+j)*channels, src_data + (i*cols+cols-1-j)*channels, channels);
'''),('''		for(int j=0;j<cols*channels;j++)
				dst_data[i*cols*channels+j] = src_data[(rows-1-i)*cols*channels+j];
''','''		memcpy(dst_data + i*cols*channels, src_data + (rows-1-i)*cols*channels, cols*channels);
'''),('''	simple_mat tmp = simple_mat_copy(dst);

	int dst_rows''','''	simple_mat tmp = create_simple_mat(dst->rows,dst->cols,dst->data_type,dst->channels);

	int dst_rows'''),('''	for(int i=0;i<dst_rows;i++)
	{
		for(int j=0;j<dst_cols;j++)
		{
			if(i%2 == 1||j%2 == 1)
			{
				for(int m=0;m<channels;m++)
					tmp_data[i*dst_cols*channels+j*channels+m] = 0;
			}
			else
			{
				for(int m=0;m<channels;m++)
					tmp_data[i*dst_cols*channels+j*channels+m] = src_data[i/2*src->cols*channels+j/2*channels+m];
			}
		}
	}
''','''	memset(tmp_data, 0, dst_rows*dst_cols*channels);
	for(int i=0;i<src_rows;i++)
		for(int j=0;j<src_cols;j++)
			for(int m=0;m<channels;m++)
				tmp_data[(2*i*dst_cols+2*j)*channels+m] = src_data[(i*src_cols+j)*channels+m];
'''),('''			{simple_mat temp = simple_mat_copy(src_mat);
			simple_mat_flip_horizontal(src_mat,temp);
			simple_mat_flip_vertical(temp,dst_mat);
''','''			{simple_mat temp = create_simple_mat(rows,cols,src_mat->data_type,src_mat->channels);
			simple_mat_flip_vertical(src_mat,temp);
			simple_mat_flip_horizontal(temp,dst_mat);
'''),('''			if(x < 0 || x >= height || y < 0 || y >= width)
				continue;
			long int dstOft = ((long int)x * width + y) * mat->bands * elem_size;
			long int srcOft = ((long int)i * mat->samples + j) * mat->bands * elem_size;
			unsigned char* src = src_data + srcOft;
			unsigned char* dst = dst_data + dstOft;
			memcpy(dst,src,mat->bands*elem_size);
''','''			if(x >= 0 && x < height && y >= 0 && y < width)
			{
				size_t pixel = (size_t)mat->bands * elem_size;
				memcpy(dst_data + ((size_t)x*width+y)*pixel, src_data + ((size_t)i*mat->samples+j)*pixel, pixel);
			}
'''))
e(P+'RadiometricCalibration.c',('''				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*samples + j];
''','''				*res_data++ = *bipdata++ * coefficient[k*samples + j];
'''),('''				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k];
''','''				float radiance = coefficient[k];
				radiance *= bipdata[i*samples*bands + j*bands + k];
				res_data[i*samples*bands + j*bands + k] = radiance;
'''))
e(V,('!__cap ? __cap + 1 : __cap * 2','!__cap ? 1 : __cap + __cap'),('''			if ((i) < __sz) {                              \\
				vector_set_size((vec), __sz - 1);          \\
				size_t __x;                                \\
				for (__x = (i); __x < (__sz - 1); ++__x) { \\
					(vec)[__x] = (vec)[__x + 1];           \\
				}                                          \\
			}                                              \\
''','''			const size_t __at = (i);                       \\
			if (__at < __sz) {                             \\
				for (size_t __x = __at + 1; __x < __sz; ++__x) \\
					(vec)[__x - 1] = (vec)[__x];           \\
				vector_set_size((vec), __sz - 1);          \\
			}                                              \\
'''))
e(P+'colortransform.c',('''				for(int k=0;k<3;k++)
					tmp = tmp>rgb_data[i*cols*3+j*3+k]?tmp:rgb_data[i*cols*3+j*3+k];

				gray_data[i*cols+j] = (int)tmp;
''','''				unsigned char best = 0;
				for(int k=0;k<3;k++)
					if(rgb_data[(i*cols+j)*3+k] > best)
						best = rgb_data[(i*cols+j)*3+k];
				gray_data[i*cols+j] = best;
'''),('''				for(int k=0;k<3;k++)
					tmp+=rgb_data[i*cols*3+j*3+k];

				gray_data[i*cols+j] = (int)(tmp/3+0.5);
''','''				int sum = 1;
				for(int k=0;k<3;k++)
					sum += rgb_data[i*cols*3+j*3+k];
				gray_data[i*cols+j] = sum/3;
'''),('''			for(int t=0;t<channels;t++)
			{
				dst_data[i*cols*channels+j*channels] =''','''			{
				dst_data[i*cols*channels+j*channels] ='''))
e(G+'draw.c',('''		for(int i=-size/2;i<=size/2;i++)
		{
			for(int j=-size/2;j<=size/2;j++)
			{
				if(x+i>=0&&x+i<cols&&y+j>=0&&y+j<rows)
				{
					if(channels == 3)
					{
						dst_data[(y+j)*cols*channels+(x+i)*channels] = color.r;	
						dst_data[(y+j)*cols*channels+(x+i)*channels+1] = color.g;
						dst_data[(y+j)*cols*channels+(x+i)*channels+2] = color.b;
					}
					else if(channels == 1)
						dst_data[(y+j)*cols+(x+i)] = color.r;	
				}
			}
		}
''','''		int half = size/2;
		int top = y-half < 0 ? 0 : y-half, bottom = y+half >= rows ? rows-1 : y+half;
		int left = x-half < 0 ? 0 : x-half, right = x+half >= cols ? cols-1 : x+half;
		for(int r=top;r<=bottom;r++)
		{
			for(int c=left;c<=right;c++)
			{
				unsigned char* p = dst_data + (r*cols+c)*channels;
				if(channels == 1 || channels == 3)
					p[0] = color.r;
				if(channels == 3)
				{
					p[1] = color.g;
					p[2] = color.b;
				}
			}
		}
'''),('''	int steps = abs(dx)>abs(dy) ? abs(dx) : abs(dy);
''','''	int steps = abs(dy)>=abs(dx) ? abs(dy) : abs(dx);
'''))

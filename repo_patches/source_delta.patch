From c0498e9181c959fe1fba9c11458ecc45d2fbf759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:01 +0000
Subject: [PATCH 001/140] fix: mppnccombine -r removes only the files of the
 combined set

Without -e the removal loop ran one file past the last one read and deleted
an uncombined file with the next extension number.
---
 src/mpp-nccombine/mppnccombine.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 240521a..981999d 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -661,6 +661,9 @@ main (int argc, char *argv[])
                       varbuf[k][v] = NULL;
                     }
             }
+          /* nend is one past the last file of the set; make it inclusive, as
+             it is when -e is used, for the removal of the input files */
+          nend--;
         }
     }
   /* Loop over all the specified input files */
-- 
2.43.0


From 16e5b00d562fdd60deb3c84e6a49d0b6f12c3113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:01 +0000
Subject: [PATCH 002/140] fix: mppnccombine -f -e does not count a missing
 number as a file of the set

A gap in the numbers of the range made the last files of the set be left out
of the combined file.
---
 src/mpp-nccombine/mppnccombine.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 981999d..60f7323 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -516,6 +516,9 @@ main (int argc, char *argv[])
                     else
                       {
                         infileerrors = 1;
+                        /* a missing number is not one of the nfiles files */
+                        if (a < nend)
+                          continue;
                       }
                   }
                 if (verbose)
-- 
2.43.0


From 6cb7fb5fabd8583bb55232c39ad933422191374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:29 +0000
Subject: [PATCH 003/140] fix: mppnccombine combines a set that has no records
 yet

A record dimension of length 0 made the blocking factor 0 and the number of
blocks was then computed by dividing by it.
---
 src/mpp-nccombine/mppnccombine.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 60f7323..a6be32e 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -1292,6 +1292,7 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
   long long recfullsize; /* Non-decomposed size of one record of a variable */
   int varrecdim;         /* Variable's record dimension */
   static unsigned char first = 1; /* First time reading variables? */
+  static int firstrecs = (-1);    /* Number of records of the first file */
   int imax, jmax, kmax, lmax;
   long long int imaxfull, jmaxfull, kmaxfull, lmaxfull;
   long long int imaxjmaxfull, imaxjmaxkmaxfull;
@@ -1306,6 +1307,21 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
   else
     recdimsize = ncinfile->dimsize[ncinfile->recdim];
 
+  /* All the files of the set hold the same number of records */
+  if (firstrecs < 0)
+    firstrecs = recdimsize;
+  if (recdimsize != firstrecs)
+    {
+      fprintf (
+          stderr,
+          "Error: different number of records than the first input file!\n");
+      return (1);
+    }
+
+  /* No records written yet: there are still the static variables to combine */
+  if (recdimsize < 1)
+    recdimsize = 1;
+
   /* Check the number of records */
   if (*nrecs == 1)
     {
@@ -1430,6 +1446,10 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
                     instart[d], outstart[d], count[d]);
         }
 
+      /* There is no such record in this file */
+      if (varrecdim != (-1) && r >= ncinfile->dimsize[ncinfile->recdim])
+        continue;
+
       /* Prevent unnecessary reads/writes */
       if (r > 0)
         {
@@ -1823,6 +1843,8 @@ flush_decomp (struct fileinfo *ncoutfile, int nfiles, int r, int bf,
         outstart[varrecdim] = r;
       if (varrecdim == (-1) && r > 0)
         continue;
+      if (varbuf[(r % bf)][v] == NULL)
+        continue;
       if (verbose > 1)
         printf ("      writing to disk\n");
       if (ncvarput (ncoutfile->ncfid, v, outstart, count, varbuf[(r % bf)][v])
-- 
2.43.0


From 1d6e9a5197bd3fdb080cd15df3987ee79ecfe6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:29 +0000
Subject: [PATCH 004/140] fix: mppnccombine does not use an uninitialised
 number of files

Without the NumFilesInSet attribute (which only gives a warning) the number of
files in the set was whatever was on the stack.
---
 src/mpp-nccombine/mppnccombine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index a6be32e..fd30784 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -923,7 +923,7 @@ process_file (char *ncname, unsigned char appendnc, struct fileinfo *ncoutfile,
               unsigned char missing, int deflate, int deflation, int shuffle)
 {
   struct fileinfo *ncinfile;   /* Information about an input netCDF file */
-  int nfiles2;                 /* Number of files in the decomposed domain */
+  int nfiles2 = (-1);          /* Number of files in the decomposed domain */
   int ncinformat, ncoutformat; /* Format of input and output netCDF files */
   int d, v, n;                 /* Loop variables */
   int dimid;                   /* ID of a dimension */
-- 
2.43.0


From 9fb08e98fd3000050080eb728fee13529822579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:10 +0000
Subject: [PATCH 005/140] fix: mppncscatter scatters byte variables

The text functions of netCDF refuse NC_BYTE variables, so any file with one
stopped the tool.
---
 src/mpp-ncscatter/mppncscatter.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 0ad2aa8..2a00629 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -828,7 +828,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
 
     switch(type) {
     case NC_BYTE: case NC_CHAR:
-      status = nc_get_var_text(nc, varid, tp);
+      status = nc_get_var(nc, varid, tp);
       if (status != NC_NOERR) {
 	fprintf(stderr, "Error. Failed to get var %s char data from input file.\n", varname);
 	exit(-1);
@@ -908,7 +908,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
 
           switch(type) {
           case NC_BYTE: case NC_CHAR:
-            status = nc_put_vara_text(ncids[i], varid, outstart, count, otp);
+            status = nc_put_vara(ncids[i], varid, outstart, count, otp);
             if (status != NC_NOERR) {
               fprintf(stderr, "Error. Failed to put var \"%s\" char data into output file %d.\n", varname, i);
               handle_error(status);
@@ -946,7 +946,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
         } else { /* Scalar variable. */
           switch(type) {
           case NC_BYTE: case NC_CHAR:
-            status = nc_put_var_text(ncids[i], varid, tp);
+            status = nc_put_var(ncids[i], varid, tp);
             if (status != NC_NOERR) {
               fprintf(stderr, "Error. Failed to put scalar var \"%s\" text data into output file %d.\n", varname, i);
               exit(-1);
@@ -1031,7 +1031,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
 
       switch(type) {
       case NC_BYTE: case NC_CHAR:
-	status = nc_get_vara_text(nc, varid, instart, count, tp);
+	status = nc_get_vara(nc, varid, instart, count, tp);
 	if (status != NC_NOERR) {
 	  fprintf(stderr, "Error. Failed to get var %s char data from input file.\n", varname);
 	  exit(-1);
@@ -1117,7 +1117,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
 
 	  switch(type) {
 	  case NC_BYTE: case NC_CHAR:
-	    status = nc_put_vara_text(ncids[i], varid, outstart, count, otp);
+	    status = nc_put_vara(ncids[i], varid, outstart, count, otp);
 	    if (status != NC_NOERR) {
 	      fprintf(stderr, "Error. Failed to put var %s data into output file %d.\n", varname, i);
 	      exit(-1);
-- 
2.43.0


From 0883fa9a1dc05f818a21c3c49af9e4fccfa13444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:10 +0000
Subject: [PATCH 006/140] fix: mppncscatter copies all of a 4-D static variable

The first dimension was ignored: only the values of its first index were
copied, the rest of each output variable was uninitialised memory.
---
 src/mpp-ncscatter/mppncscatter.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 2a00629..6aa74aa 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -83,7 +83,7 @@ int get_num_files(mnsopts* opts) {
 */
 void hyperslabcopy(nc_type type, size_t *dimlen, int *dimids, size_t *start, size_t *count, int ndim, char *ti, short *si, int *ii, float *fi, double *di, char *t, short *s, int *i, float *f, double *d)
 {
-  size_t k, j;
+  size_t l, k, j;
   size_t offset=0;
   size_t i0, stridek, stridej;
 
@@ -213,7 +213,9 @@ void hyperslabcopy(nc_type type, size_t *dimlen, int *dimids, size_t *start, siz
     }
     break;
   case 4:
-    i0 = start[1]*dimlen[dimids[2]]*dimlen[dimids[3]] +
+    for(l=0; l < count[0]; ++l) {
+    i0 = (start[0]+l)*dimlen[dimids[1]]*dimlen[dimids[2]]*dimlen[dimids[3]] +
+      start[1]*dimlen[dimids[2]]*dimlen[dimids[3]] +
       start[2]*dimlen[dimids[3]] +
       start[3];
     stridek = dimlen[dimids[2]]*dimlen[dimids[3]];
@@ -261,6 +263,7 @@ void hyperslabcopy(nc_type type, size_t *dimlen, int *dimids, size_t *start, siz
       }
       break;
     }
+    }
     break;
   }
 }
-- 
2.43.0


From 4224c924a77742ded961c2c2534a1280d97dcdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:10 +0000
Subject: [PATCH 007/140] fix: mppncscatter does not treat a scalar variable as
 a record variable

nc_inq_var leaves dimids alone for a scalar, so after a record variable the
scalar was taken for one and was written once per record.
---
 src/mpp-ncscatter/mppncscatter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 6aa74aa..37d7757 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -1014,7 +1014,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
       }
 
       /* Skip nonrecord var. */
-      if ( (dimids[0] != recid) )
+      if ( (ndimvar < 1) || (dimids[0] != recid) )
 	continue;
       ndimvar2 = ndimvar-1;
       if (ndimvar > 1) {
-- 
2.43.0


From 0ae4ea63867df6b22625755e42ce245d5977f3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:11 +0000
Subject: [PATCH 008/140] fix: mppncscatter looks at the axis attribute of
 every dimension without units

foundunits was not reset, so cartesian_axis was ignored for a dimension after
one that had been found by its units.
---
 src/mpp-ncscatter/mppncscatter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 37d7757..06f6566 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -302,6 +302,7 @@ void get_scatter_dims(int nc, int ndims, int nvars, ScatterDim* scatterdims[], m
      Coordvar is x/y based on metadata, and shares dim name. */
   for(dimid=0; dimid < ndims; ++dimid) {
     scatter_type = NOSCATTER;
+    foundunits = 0;
     dimlen = 0;
     ndiv = 0;
 
-- 
2.43.0


From 5b7130f8a24138e1298240fa22891fae239b5b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:28 +0000
Subject: [PATCH 009/140] fix: mppncscatter terminates the units and axis
 attributes it reads

The text read from the file was not terminated, so the characters of a longer
attribute read before could make e.g. "degrees" look like "degrees_north", and
an attribute of more than 256 characters overflowed the buffer.
---
 src/mpp-ncscatter/mppncscatter.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 06f6566..aa2c9b8 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -275,6 +275,27 @@ void free_scatter_dims(ScatterDim* dims[], int ndims) {
   }
 }
 /*-------------------------------------------------------------------*/
+/* Reads a text attribute into a string of at most size-1 characters. */
+static int get_att_string(int nc, int varid, const char *attname, char *att, size_t size)
+{
+  size_t len;
+  char *text;
+  int status;
+
+  att[0] = '\0';
+  status = nc_inq_attlen(nc, varid, attname, &len);
+  if (status != NC_NOERR) return status;
+  text = (char*)calloc(len+1, sizeof(char));
+  if (text == NULL) return NC_ENOMEM;
+  status = nc_get_att_text(nc, varid, attname, text);
+  if (status == NC_NOERR) {
+    strncpy(att, text, size-1);
+    att[size-1] = '\0';
+  }
+  free(text);
+  return status;
+}
+/*-------------------------------------------------------------------*/
 /*
    Sets each array element to NOSCATTER, SCATTERX, or SCATTERY.
    These tags denote if the dimension should be scattered.
@@ -347,7 +368,7 @@ void get_scatter_dims(int nc, int ndims, int nvars, ScatterDim* scatterdims[], m
 	fprintf(stderr, "Error. Coordinate variable units attribute isn't char type for variable %s.  Checking for \"cartesian_axis\" instead.\n", name);
 	goto ENDUNITS;
       }
-      status = nc_get_att_text(nc, varid, "units", att);
+      status = get_att_string(nc, varid, "units", att, sizeof(att));
       if (status != NC_NOERR) {
 	fprintf(stderr, "Error. Failed to load units attribute for variable %s. Checking for \"cartesian_axis\" instead.\n", name);
 	goto ENDUNITS;
@@ -384,7 +405,7 @@ void get_scatter_dims(int nc, int ndims, int nvars, ScatterDim* scatterdims[], m
 	fprintf(stderr, "Error. Coordinate variable \"cartesian_axis\" attribute isn't char type for variable %s.\n", name);
 	exit(-1);
       }
-      status = nc_get_att_text(nc, varid, "cartesian_axis", att);
+      status = get_att_string(nc, varid, "cartesian_axis", att, sizeof(att));
       if (status != NC_NOERR) {
 	fprintf(stderr, "Error. Failed to load \"cartesian_axis\" attribute for variable %s.\n", name);
 	exit(-1);
-- 
2.43.0


From 57aa903a08dd9b75135cb003a75d99507de540ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:28 +0000
Subject: [PATCH 010/140] fix: mppncscatter --prefix does not change --start

The case for -p fell through to the one for -s, so "-s 5 -p dir" numbered the
files from 0 and "-p 7" from 7.
---
 src/mpp-ncscatter/opt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpp-ncscatter/opt.c b/src/mpp-ncscatter/opt.c
index 8d165b2..42d14e1 100644
--- a/src/mpp-ncscatter/opt.c
+++ b/src/mpp-ncscatter/opt.c
@@ -126,6 +126,7 @@ int getmnsopts(int argc, char** argv, mnsopts* popts)
         len = strlen(optarg);
         popts->prefix = (char*)malloc(len+1);
         strcpy(popts->prefix, optarg);
+        break;
 
 			case 's':
 				popts->start = atoi(optarg);
-- 
2.43.0


From 039b3d3d4823f79c2a266cfbd622875e708d77f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:49 +0000
Subject: [PATCH 011/140] fix: decompress-ncc keeps all files' data of
 variables with ocean_fillvalue

Every input file overwrote the points of the files before it with
ocean_fillvalue, so only the points of the last file survived.
---
 lib/libnfu/nfu_compress.F90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libnfu/nfu_compress.F90 b/lib/libnfu/nfu_compress.F90
index 4d05980..6cdf16e 100644
--- a/lib/libnfu/nfu_compress.F90
+++ b/lib/libnfu/nfu_compress.F90
@@ -200,6 +200,9 @@ function nfu_get_compressed_var_r8(ncid,varid,data,mask,start,count,ocean,ocean_
   if (isOcean) then
      do i=1,size(ocean_index)
           if (ocean_index(i) .eq. 0) then
+             if (present(mask)) then
+                if (mask(i)) cycle ! the point was set from another file
+             endif
              data(i)=ocean_value
           endif
      enddo
-- 
2.43.0


From 5a5540e468d60166bd47df667201213e933c25f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:09 +0000
Subject: [PATCH 012/140] fix: combine-ncc copies the records of a character
 variable

nf_put_var_text writes as many records as the output file already has, so a
character record variable defined before the other record variables was lost.
---
 src/land_utils/combine-ncc.F90 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/land_utils/combine-ncc.F90 b/src/land_utils/combine-ncc.F90
index 0fc8017..b058700 100644
--- a/src/land_utils/combine-ncc.F90
+++ b/src/land_utils/combine-ncc.F90
@@ -179,7 +179,9 @@ program combine_res
            allocate(text(recsize*nrec))
            CHECK_NF_ERRSTAT(nf_get_var_text(input(nfiles),varid,text))
            CHECK_NF_ERRSTAT(nfu_inq_var(ncid,varname,id=varid1))
-           CHECK_NF_ERRSTAT(nf_put_var_text(ncid,varid1,text))
+           ! explicit counts: nf_put_var writes only the records the output has so far
+           start(:) = 1; cnt(:) = 1; cnt(1:ndims) = dimlens(1:ndims)
+           CHECK_NF_ERRSTAT(nf_put_vara_text(ncid,varid1,start,cnt,text))
            deallocate(text)
         else
            allocate(buffer(recsize))
-- 
2.43.0


From ecf5dd894904261d475f552478a63f4529ddf1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:52 +0000
Subject: [PATCH 013/140] fix: scatter-ncc writes the static variables of a
 file without records

The static variables were written with the first record, so a file whose
record dimension has length 0 lost all of them without an error.
---
 src/land_utils/scatter-ncc.F90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/land_utils/scatter-ncc.F90 b/src/land_utils/scatter-ncc.F90
index 8ee7cc6..4f2e9a3 100644
--- a/src/land_utils/scatter-ncc.F90
+++ b/src/land_utils/scatter-ncc.F90
@@ -203,7 +203,7 @@ program combine_res
   npts = nlon*nlat
   npts_local = nlon_local*nlat_local
   !--- loop through each record
-  do tlev = 1, nrec
+  do tlev = 1, max(nrec,1) ! at least once, for the static variables
 
 
      ! write out the data
@@ -212,6 +212,7 @@ program combine_res
         CHECK_NF_ERRSTAT(nfu_inq_var(in_ncid,varid, ndims=ndims, dimids=dimids, dimlens=dimlens,recsize=recsize,has_records=has_records))
 
         if(.not. has_records .and. tlev>1) cycle
+        if(has_records .and. tlev>nrec) cycle
 
         is_compressed = .false.
         if(ndims>0) then
-- 
2.43.0


From b9d647a204862dbadb302f6bf373ce89043eafa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:03 +0000
Subject: [PATCH 014/140] fix: list_ncvars does not read before the name and
 dimensions of a variable

A name of less than 7 characters and a scalar variable were compared with
whatever memory precedes the name and the dimension list.
---
 src/list-ncvars/list_ncvars.f90 | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/list-ncvars/list_ncvars.f90 b/src/list-ncvars/list_ncvars.f90
index e68fefd..df8822d 100644
--- a/src/list-ncvars/list_ncvars.f90
+++ b/src/list-ncvars/list_ncvars.f90
@@ -73,14 +73,21 @@ program list_ncvars
 
       !--- skip names ending in _T1, _T2, _DT  ---
       nc = len_trim(name)
-      if (name(nc-2:nc) == '_T1' .or. name(nc-2:nc) == '_T2' .or. &
-         name(nc-2:nc) == '_DT' .or. name(nc-6:nc) == '_NITEMS') cycle
+      if (nc >= 3) then
+         if (name(nc-2:nc) == '_T1' .or. name(nc-2:nc) == '_T2' .or. &
+            name(nc-2:nc) == '_DT') cycle
+      endif
+      if (nc >= 7) then
+         if (name(nc-6:nc) == '_NITEMS') cycle
+      endif
 
       !--- is there a record dimension ---
       static = .true.
-      if (dimids(ndim) == recdim) then
-         static = .false.
-         ndim = ndim-1
+      if (ndim > 0) then
+         if (dimids(ndim) == recdim) then
+            static = .false.
+            ndim = ndim-1
+         endif
       endif
 
       if (.not.list_nonstatic .and. .not.static) cycle
-- 
2.43.0


From f5c473cc5dd7777f1bf608ab01b1e183fb0a23d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:03 +0000
Subject: [PATCH 015/140] fix: list_ncvars.sh reports that -s/-t or -0..-4 is
 missing

The tests compared with ".false" without the final dot, so they never failed
and the script silently listed nothing.
---
 src/list-ncvars/list_ncvars.sh.in | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/list-ncvars/list_ncvars.sh.in b/src/list-ncvars/list_ncvars.sh.in
index 8494262..8dbd3d6 100644
--- a/src/list-ncvars/list_ncvars.sh.in
+++ b/src/list-ncvars/list_ncvars.sh.in
@@ -124,14 +124,14 @@ do
 done
 
 # Check that the user requested something
-if [ $static = ".false" -a $nonstatic = ".false." ]
+if [ $static = ".false." -a $nonstatic = ".false." ]
 then
     echoerr "${script_name}: Must request at least one of -s or -t"
     exit 1
 fi
 if [ $var0d = ".false." -a $var1d = ".false." \
-     -a $var2d = ".false" -a $var3d = ".false." \
-     -a $var4d = ".false" ]
+     -a $var2d = ".false." -a $var3d = ".false." \
+     -a $var4d = ".false." ]
 then
     echoerr "${script_name}: Must request at least one -0, -1, -2, -3 or -4"
     exit 1
-- 
2.43.0


From bb223a2605737eea52c022d553ac9a3ca1bdfb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:27 +0000
Subject: [PATCH 016/140] fix: combine_restarts -n does not remove an existing
 combined file

A dry run is documented to only print the commands, but it deleted the output
of the mppnccombine sets.
---
 src/combine-restarts/combine_restarts.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combine-restarts/combine_restarts.in b/src/combine-restarts/combine_restarts.in
index 5e63acb..74dbe8f 100755
--- a/src/combine-restarts/combine_restarts.in
+++ b/src/combine-restarts/combine_restarts.in
@@ -183,7 +183,7 @@ do
                 fi
             fi
         else
-            if [ -e ${f} ]
+            if [ -e ${f} -a $dryrun -eq 0 ]
             then
                 # Remove exising output file
                 \rm -f ${f}
-- 
2.43.0


From a701c80a15ed9e4c69e6f834ac8695446e54bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:27 +0000
Subject: [PATCH 017/140] fix: combine_restarts does not mix the files of
 similarly named sets

The dots of a file name matched any character, so the files of ice_res.nc were
taken as input of ice.res.nc, and removed with -r.
---
 src/combine-restarts/combine_restarts.in | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/combine-restarts/combine_restarts.in b/src/combine-restarts/combine_restarts.in
index 74dbe8f..c3d7c30 100755
--- a/src/combine-restarts/combine_restarts.in
+++ b/src/combine-restarts/combine_restarts.in
@@ -119,7 +119,9 @@ do
     then
         echoerr "debug1: processing for combined file '${f}'"
     fi
-    inputFiles=$( ls -1 | @EGREP@ "^${f}${patternGrepTail}" | xargs )
+    # The file name is not a regular expression
+    patternGrepFile=$( echo "${f}" | @SED@ 's/[][\.*^$+?(){}|]/\\&/g' )
+    inputFiles=$( ls -1 | @EGREP@ "^${patternGrepFile}${patternGrepTail}" | xargs )
     if [ $( echo ${inputFiles} | wc -w ) -gt 0 ]
     then
         # Check if file is a compressed file
-- 
2.43.0


From 57fe7627f5aa1673e56776e1ec2e34632b50719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:41 +0000
Subject: [PATCH 018/140] fix: timavg -b does not use the unallocated weights
 of the bounds it adds

---
 src/timeavg/time_average.f90 | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index 6272f46..fcc71f7 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -587,7 +587,6 @@ program time_average
          ivar = nvar_out
          Vars(ivar)%data_sum = 0.0
          Vars(ivar)%tavg(3)  = 0.0
-         Vars(ivar)%data_wt  = 0.0
          Vars(ivar)%data_wt_max = 1.
       endif
 
-- 
2.43.0


From 4c39dac505a515516af6ebcf0a1cd77d8210b950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:41 +0000
Subject: [PATCH 019/140] fix: timavg asks for the compression of the input
 variable by its own id

---
 src/timeavg/time_average.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index fcc71f7..66d0a75 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -443,7 +443,7 @@ program time_average
                deflate_in = 0
                deflation_in = 0
             else
-               istat = NF90_INQ_VAR_DEFLATE (ncid_in, Vars(ivar)%varid_out, shuffle_in, &
+               istat = NF90_INQ_VAR_DEFLATE (ncid_in, ivar, shuffle_in, &
                   deflate_in, deflation_in)
                if (istat /= NF90_NOERR) call error_handler &
                   ('getting NetCDF4 compression: '//trim(Vars(ivar)%name), ncode=istat)
-- 
2.43.0


From 6041e6eae15a86e58f92518e928ff257f6396dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:41 +0000
Subject: [PATCH 020/140] fix: timavg skips missing values in a file after a
 one-record file

---
 src/timeavg/time_average.f90 | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index 66d0a75..e7ca6e4 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -697,7 +697,7 @@ program time_average
 
             !---------- SUM FIELDS ----------
 
-            if (Vars(ivar)%use_data_wt) then
+            if (Vars(ivar)%use_data_wt .and. numtime > 1) then
                if (Vars(ivar)%do_missval) then
                   where (ddata(1:ix,1:jy,1:kz,1:mt) .ne. Vars(ivar)%missval)
                      Vars(ivar)%data_sum = Vars(ivar)%data_sum+tavg(3)*ddata(1:ix,1:jy,1:kz,1:mt)
@@ -821,7 +821,7 @@ program time_average
          ! compute time average
          ! divid by data weight when appropriate
          ! insert missing value where needed
-         if (Vars(ivar)%use_data_wt) then
+         if (Vars(ivar)%use_data_wt .and. numtime > 1) then
             data_wt_min = max(min(frac_valid_data,1.-small),0.)*Vars(ivar)%data_wt_max
             if (Vars(ivar)%do_missval) then
                where (Vars(ivar)%data_wt > data_wt_min)
@@ -1179,7 +1179,8 @@ contains
       !--- allocate space for data (and data wt when necessary) ---
       allocate (Var%data_sum(shape(1),shape(2),shape(3),shape(4)))
       if (.not.Var%use_data_wt) then
-         if (ntime > 1 .and. Var%do_missval .and. .not.Var%static) then
+         ! (the files may have different numbers of time levels)
+         if (Var%do_missval .and. .not.Var%static) then
             allocate (Var%data_wt(shape(1),shape(2),shape(3),shape(4)))
             Var%use_data_wt = .true.
          endif
-- 
2.43.0


From 1723945a91e3e4b23bea8bd93ad58185e6059f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:38 +0000
Subject: [PATCH 021/140] fix: timavg derives the averaging interval from the
 time axis when there are no bounds

---
 src/timeavg/time_average.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index e7ca6e4..dd06c06 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -1054,7 +1054,7 @@ contains
       !--- get time average info for non-static variables ----
       Var%do_avg = .false.
       if (.not.Var%static) then
-         Var%do_avg = .true.
+         Var%do_avg = do_avg
       endif
    end subroutine init_variable_type
 
-- 
2.43.0


From 6131b5f27f7976861cb33f2730c7ec3b541c60e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:38 +0000
Subject: [PATCH 022/140] fix: timavg accepts a time bounds variable that comes
 first in the file

---
 src/timeavg/time_average.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index dd06c06..9f8ec44 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -725,6 +725,7 @@ program time_average
       ! find the first avg field
       first = .true.
       do ivar = 1, nvar
+         if (trim(Vars(ivar)%name) == trim(name_time_bounds)) cycle
          if (Vars(ivar)%do_avg) then
             time_bounds(1:3) = Vars(ivar)%tavg(1:3)
             first = .false.
-- 
2.43.0


From 9e0a4e59578b2c09280163e4abc2637122e8e27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:38 +0000
Subject: [PATCH 023/140] fix: timavg does not read before the name and
 dimensions of a variable

---
 src/timeavg/time_average.f90 | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index 9f8ec44..d1b8114 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -954,7 +954,7 @@ contains
       type(variable_type), intent(inout) :: Var
 
       integer :: idim, nc, istat, i
-      logical :: do_fillval
+      logical :: do_fillval, has_time
       real    :: fillval
 
       ! will not allow fields with more than five dimensions
@@ -970,16 +970,22 @@ contains
       endif
 
       !--- variable has a time axis (non-static) ---
-      if (Var%axes(Var%ndim) == recdim) then ! assume last dimension is time
+      has_time = .false.
+      if (Var%ndim > 0) has_time = Var%axes(Var%ndim) == recdim ! assume last dimension is time
+      if (has_time) then
          Var%static = .false.
          Var%ndim = Var%ndim - 1
          ! skip certain fields that only have record dimension
          if (Var%ndim == 0) then
             nc = len_trim(Var%name)
-            if (Var%name(nc-2:nc) == '_T1' .or. &
-               Var%name(nc-2:nc) == '_T2' .or. &
-               Var%name(nc-2:nc) == '_DT' .or. &
-               Var%name(nc-6:nc) == '_NITEMS') Var%skip = .true.
+            if (nc >= 3) then
+               if (Var%name(nc-2:nc) == '_T1' .or. &
+                  Var%name(nc-2:nc) == '_T2' .or. &
+                  Var%name(nc-2:nc) == '_DT') Var%skip = .true.
+            endif
+            if (nc >= 7) then
+               if (Var%name(nc-6:nc) == '_NITEMS') Var%skip = .true.
+            endif
             ! skip record dimension field
             !!!if (Var%axes(1) == recdim) Var%skip = .true.
          endif
-- 
2.43.0


From bc20d0a515eebb79e421b5012470ca5ef564a290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:36 +0000
Subject: [PATCH 024/140] fix: timavg -z does not stop at a scalar variable

---
 src/timeavg/time_average.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index d1b8114..76de2b8 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -453,7 +453,7 @@ program time_average
 
             ! set compression
             call apply_compression_defaults (deflation_in, shuffle_in, deflation_out, shuffle_out )
-            if (deflation_out > 0) then
+            if (deflation_out > 0 .and. ndim > 0) then ! (a scalar can not be compressed)
                istat = NF90_DEF_VAR_DEFLATE (ncid_out, Vars(ivar)%varid_out, shuffle_out, 1, &
                   deflation_out)
                if (istat /= NF90_NOERR) call error_handler &
-- 
2.43.0


From 94b972ba98da0392246675daf0ad0009c7f7b766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:38 +0000
Subject: [PATCH 025/140] fix: plevel.sh does not use the namelist a failed run
 left

---
 src/plevel/plevel.sh.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plevel/plevel.sh.in b/src/plevel/plevel.sh.in
index 38bd4fd..b3a1021 100755
--- a/src/plevel/plevel.sh.in
+++ b/src/plevel/plevel.sh.in
@@ -174,7 +174,7 @@ tloop=`echo ${tlist} | sed -e "s/,/ /g"`
 # Generate namelist for pressure interp program
 namelist="plev.input.nml"
 
-echo " &input" >> $namelist
+echo " &input" > $namelist
 
 # input file names
 echo "     in_file_name =  '$file' ," >> $namelist
-- 
2.43.0


From 1b3ca37d2916868bcba4a713e388ff544f2e0c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:38 +0000
Subject: [PATCH 026/140] fix: plevel.sh returns the status of the
 interpolation

---
 src/plevel/plevel.sh.in | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plevel/plevel.sh.in b/src/plevel/plevel.sh.in
index b3a1021..564375b 100755
--- a/src/plevel/plevel.sh.in
+++ b/src/plevel/plevel.sh.in
@@ -233,9 +233,11 @@ done
 echo " /" >> $namelist
 
 eval $plevel_interp
-if [ $? -eq 0 ]
+exit_status=$?
+if [ $exit_status -eq 0 ]
 then
     rm -f $namelist
 else
     echoerr "$script_name: error running \"$plevel_interp\""
 fi
+exit $exit_status
-- 
2.43.0


From 65f2f2aa1b57c52bb3f1f5847f6b4de45f70a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:44 +0000
Subject: [PATCH 027/140] fix: plevel slp uses the lowest level when no level
 is near the surface

The reference level was left unset (or kept from another column) when no
full level had sigma above 0.8.
---
 src/plevel/run_pressure_interp.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plevel/run_pressure_interp.F90 b/src/plevel/run_pressure_interp.F90
index 881f011..61c19a9 100644
--- a/src/plevel/run_pressure_interp.F90
+++ b/src/plevel/run_pressure_interp.F90
@@ -945,6 +945,7 @@ contains
 
                if ( abs(zsurf(i,j)) > 0.0001 ) then
                   ! get ref level for temp (as in spectral model)
+                  kr = kb
                   do k = 1, kb
                      sig = pfull(i,j,k)/pbot(i,j)
                      if ( sig > 0.8 ) then
-- 
2.43.0


From 2aaaab3383f454a5949f5a6888af8d28a3d2f080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:44 +0000
Subject: [PATCH 028/140] fix: plevel does not declare 0 as the missing value
 of a field without one

A level field without a missing value came out with missing_value = 0 and
_FillValue = 0, which made its genuine zeros missing.
---
 src/plevel/run_pressure_interp.F90 | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/plevel/run_pressure_interp.F90 b/src/plevel/run_pressure_interp.F90
index 61c19a9..de7e9d4 100644
--- a/src/plevel/run_pressure_interp.F90
+++ b/src/plevel/run_pressure_interp.F90
@@ -1384,9 +1384,14 @@ contains
          if (Field%dimlen(3) == nlev+1) zcoord = 2
          if (zcoord == 0) return
          if (Field%static) return   ! 4d static fields not allowed
-         call copy_variable ( ncid_in, trim(name), ncid_out,&
-              & dimids, Field%varid_out,&
-              & missvalue=Field%missval_out  )
+         if (Field%do_miss_in) then
+            call copy_variable ( ncid_in, trim(name), ncid_out,&
+                 & dimids, Field%varid_out,&
+                 & missvalue=Field%missval_out  )
+         else
+            call copy_variable ( ncid_in, trim(name), ncid_out,&
+                 & dimids, Field%varid_out )
+         endif
        case (3)
          if (Field%static) then
             if (Field%dimlen(3) == nlev)   zcoord = 1
-- 
2.43.0


From cc2c5eeed91147768bb3c3ffe77b612ce94525da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:44 +0000
Subject: [PATCH 029/140] fix: plevel uses the surface interface of half-level
 fields

The bottom half level of a column is kbot+1: the lowest layer was treated as
below ground.
---
 src/plevel/run_pressure_interp.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plevel/run_pressure_interp.F90 b/src/plevel/run_pressure_interp.F90
index de7e9d4..66ec3e4 100644
--- a/src/plevel/run_pressure_interp.F90
+++ b/src/plevel/run_pressure_interp.F90
@@ -903,7 +903,7 @@ contains
 
       ! interpolation setup for standard full pressure levels
       if (do_phalf) then
-         Interp(2) = pres_interp_init ( phalf, pout, kbot )
+         Interp(2) = pres_interp_init ( phalf, pout, kbot+1 )
       endif
 
       ! write out data
-- 
2.43.0


From 01fec8530c72658b3ef311e713510b8b9e3d65b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:06 +0000
Subject: [PATCH 030/140] fix: plevel sets the humidity to zero when it is
 absent and allowed to be

With -0 the height was computed from an uninitialized humidity.
---
 src/plevel/run_pressure_interp.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plevel/run_pressure_interp.F90 b/src/plevel/run_pressure_interp.F90
index 66ec3e4..ce573aa 100644
--- a/src/plevel/run_pressure_interp.F90
+++ b/src/plevel/run_pressure_interp.F90
@@ -844,7 +844,7 @@ contains
       endif
 
       ! read in specific humidity data
-      if (do_sphum .or. need_sphum) then
+      if (do_sphum .or. need_sphum .or. do_hght) then
          if (sphum_present) then
             start = (/ is, js, 1, itime /)
             call read_variable (ncid_in, Fields(index_sphum), sphum_in, start)
-- 
2.43.0


From 4ec69afce32aa68acf98f5e24cbb875669994e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:20 +0000
Subject: [PATCH 031/140] fix: make_hgrid computes the great circle areas of a
 tripolar grid

get_grid_great_circle_area takes longitude and latitude; it was given
cartesian coordinates, and the areas were wrong by a factor of about two.
---
 src/make-hgrid/create_lonlat_grid.c | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/make-hgrid/create_lonlat_grid.c b/src/make-hgrid/create_lonlat_grid.c
index ebdec7b..bc2f121 100644
--- a/src/make-hgrid/create_lonlat_grid.c
+++ b/src/make-hgrid/create_lonlat_grid.c
@@ -456,26 +456,18 @@ void create_tripolar_grid( int *nxbnds, int *nybnds, double *xbnds, double *ybnd
  /*calculte cell area */
   n = 0;
   if(use_great_circle_algorithm) {
-    double *cart_x=NULL, *cart_y=NULL, *cart_z=NULL;
     double *x_rad=NULL, *y_rad=NULL;
 
     /* since make_hgrid is limited to be run on 1 processor, we could assume nx = iec-isc+1 and ny=jec-jsc+1 */
-    cart_x = (double *)malloc(nxp*nyp*sizeof(double));
-    cart_y = (double *)malloc(nxp*nyp*sizeof(double));
-    cart_z = (double *)malloc(nxp*nyp*sizeof(double));
     x_rad  = (double *)malloc(nxp*nyp*sizeof(double));
     y_rad  = (double *)malloc(nxp*nyp*sizeof(double));
     for(i=0; i<nxp*nyp; i++){
       x_rad[i] = x[i]*D2R;
       y_rad[i] = y[i]*D2R;
     }
-    latlon2xyz(nxp*nyp, x_rad, y_rad, cart_x, cart_y, cart_z);
-    get_grid_great_circle_area(&nx, &ny, cart_x, cart_y, area);
+    get_grid_great_circle_area(&nx, &ny, x_rad, y_rad, area);
     free(x_rad);
     free(y_rad);
-    free(cart_x);
-    free(cart_y);
-    free(cart_z);
   }
   else {
     for(j=*jsc;j<=*jec;j++){
-- 
2.43.0


From d2a2d95f5b5909b82296d7a8dd6bfe0fa41e287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:20 +0000
Subject: [PATCH 032/140] fix: make_hgrid spectral grid does not use unset
 weights

The sum of the weights was not initialized, and the middle latitude of an odd
number of rows was never computed.
---
 src/make-hgrid/create_lonlat_grid.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/make-hgrid/create_lonlat_grid.c b/src/make-hgrid/create_lonlat_grid.c
index bc2f121..f43267f 100644
--- a/src/make-hgrid/create_lonlat_grid.c
+++ b/src/make-hgrid/create_lonlat_grid.c
@@ -204,15 +204,15 @@ void create_spectral_grid( int *nlon, int *nlat, int *isc, int *iec,
   lonb    = (double *) malloc((ni+1)*sizeof(double));
   lat     = (double *) malloc(nj    *sizeof(double));
   latb    = (double *) malloc((nj+1)*sizeof(double));
-  sin_hem = (double *) malloc(nj/2*sizeof(double));
-  wts_hem = (double *) malloc(nj/2*sizeof(double));
+  sin_hem = (double *) malloc((nj+1)/2*sizeof(double));
+  wts_hem = (double *) malloc((nj+1)/2*sizeof(double));
   sin_lat = (double *) malloc(nj*sizeof(double));
   wts_lat = (double *) malloc(nj*sizeof(double));
   dlon = 360./ni;
   for(i=0;i< ni;i++) lon[i] = i*dlon;
   for(i=0;i<=ni;i++) lonb[i] = (i-0.5)*dlon;
 
-  for(j=0;j<nj/2;j++) {
+  for(j=0;j<(nj+1)/2;j++) {
     converge = 0;
     z = cos(M_PI*(j +0.75)/(nj + 0.5));
     for(iter=1; iter<=itermax; i++){
@@ -239,7 +239,7 @@ void create_spectral_grid( int *nlon, int *nlat, int *isc, int *iec,
     wts_hem [j]     = 2.0/((1.0 - z*z)*pp*pp);
   }
 
-  for(j=0;j<nj/2;j++) {
+  for(j=0;j<(nj+1)/2;j++) {
     sin_lat[j]      = - sin_hem[j];
     sin_lat[nj-1-j] =   sin_hem[j];
     wts_lat[j]      =   wts_hem[j];
@@ -252,6 +252,7 @@ void create_spectral_grid( int *nlon, int *nlat, int *isc, int *iec,
 
   latb[0] = -90.;
   latb[nj] = 90.;
+  sum_wts = 0;
   for(j=1;j<nj;j++) {
     sum_wts = sum_wts + wts_lat[j-1];
     latb[j] = asin(sum_wts-1.)*R2D;
-- 
2.43.0


From 9ede536578c1876fe16bdf69e56425d828bc6937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:01 +0000
Subject: [PATCH 033/140] fix: make_hgrid --out_halo takes the lengths of
 rotated neighbours from the right cells

---
 src/make-hgrid/make_hgrid.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/make-hgrid/make_hgrid.c b/src/make-hgrid/make_hgrid.c
index df1d35b..0ea5973 100644
--- a/src/make-hgrid/make_hgrid.c
+++ b/src/make-hgrid/make_hgrid.c
@@ -478,7 +478,7 @@ void fill_cubic_grid_halo(int nx, int ny, int halo, double *data, double *data1_
     ln = (tile+ntiles+1)%ntiles;
     for(j=1; j<=nyp; j++) {
       data[j*nxph] = data1_all[lw*nxp*nyp+(j-1)*nxp+nx-1]; /* west halo */
-      data[j*nxph+nxp+1] = data2_all[le*nxp*nyp+ioff*nxp+nyp-j]; /*east halo */
+      data[j*nxph+nxp+1] = data2_all[le*nxp*nyp+ioff*nyp+nyp-j]; /*east halo */
     }
 
     for(i=1; i<=nxp; i++) {
@@ -492,7 +492,7 @@ void fill_cubic_grid_halo(int nx, int ny, int halo, double *data, double *data1_
     ls = (tile+ntiles-1)%ntiles;
     ln = (tile+ntiles+2)%ntiles;
     for(j=1; j<=nyp; j++) {
-      data[j*nxph] = data2_all[lw*nxp*nyp+(ny-1)*nxp+nyp-j]; /* west halo */
+      data[j*nxph] = data2_all[lw*nxp*nyp+(ny-1)*nyp+nyp-j]; /* west halo */
       data[j*nxph+nxp+1] = data1_all[le*nxp*nyp+(j-1)*nxp+ioff]; /*east halo */
     }
 
-- 
2.43.0


From 9f6b35fccf9218fefb96dc0ea9143a6fd97a433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:52 +0000
Subject: [PATCH 034/140] fix: make_hgrid --shift_fac shifts the cubed sphere
 by 180/shift_fac degrees

---
 src/make-hgrid/create_gnomonic_cubic_grid.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/make-hgrid/create_gnomonic_cubic_grid.c b/src/make-hgrid/create_gnomonic_cubic_grid.c
index addeb31..2368b10 100644
--- a/src/make-hgrid/create_gnomonic_cubic_grid.c
+++ b/src/make-hgrid/create_gnomonic_cubic_grid.c
@@ -342,7 +342,7 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
   // Operate only on the 6 parent tiles
   for(n=0; n<ntiles*nip*nip; n++) {
     /* This will result in the corner close to east coast of china */
-    if( do_schmidt == 0 && do_cube_transform == 0 && shift_fac > EPSLN4) xc[n] -= M_PI/18.;
+    if( do_schmidt == 0 && do_cube_transform == 0 && shift_fac > EPSLN4) xc[n] -= M_PI/shift_fac;
     if(xc[n] < 0.) xc[n] += 2.*M_PI;
     if(fabs(xc[n]) < EPSLN10) xc[n] = 0;
     if(fabs(yc[n]) < EPSLN10) yc[n] = 0;
@@ -870,7 +870,7 @@ void create_gnomonic_cubic_grid_GR( char* grid_type, int *nlon, int *nlat, doubl
 
   for(n=0; n<ntiles*nip*nip; n++) {
     /* This will result in the corner close to east coast of china */
-    if( do_schmidt == 0 && do_cube_transform==0 && shift_fac > EPSLN4) xc[n] -= M_PI/18.;
+    if( do_schmidt == 0 && do_cube_transform==0 && shift_fac > EPSLN4) xc[n] -= M_PI/shift_fac;
     if(xc[n] < 0.) xc[n] += 2.*M_PI;
     if(fabs(xc[n]) < EPSLN10) xc[n] = 0;
     if(fabs(yc[n]) < EPSLN10) yc[n] = 0;
-- 
2.43.0


From 13f942e5dfc1fa103dc0be38417e3993eab28ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:16 +0000
Subject: [PATCH 035/140] fix: make_hgrid puts dy of a nest after a rectangular
 nest where it is written from

---
 src/make-hgrid/create_gnomonic_cubic_grid.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/make-hgrid/create_gnomonic_cubic_grid.c b/src/make-hgrid/create_gnomonic_cubic_grid.c
index 2368b10..075adf1 100644
--- a/src/make-hgrid/create_gnomonic_cubic_grid.c
+++ b/src/make-hgrid/create_gnomonic_cubic_grid.c
@@ -127,10 +127,11 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
   int *tile_offset=NULL;
   int *tile_offset_supergrid=NULL;
   int *tile_offset_supergrid_m=NULL;
+  int *tile_offset_supergrid_e=NULL;
   int *tile_offset_area=NULL;
 
   long i, j, n, npts, nn;
-  long npts_supergrid, npts_supergrid_m, npts_area;
+  long npts_supergrid, npts_supergrid_m, npts_supergrid_e, npts_area;
 
   double p1[2], p2[2];
   double *lon=NULL, *lat=NULL;
@@ -247,6 +248,7 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
   tile_offset = (int *)malloc(ntiles2*sizeof(int));
   tile_offset_supergrid = (int *)malloc(ntiles2*sizeof(int));
   tile_offset_supergrid_m = (int *)malloc(ntiles2*sizeof(int));
+  tile_offset_supergrid_e = (int *)malloc(ntiles2*sizeof(int));
   tile_offset_area = (int *)malloc(ntiles2*sizeof(int));
 
   for(n=0; n<ntiles; n++) {
@@ -303,12 +305,14 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
   npts = 0;
   npts_supergrid = 0;
   npts_supergrid_m = 0;
+  npts_supergrid_e = 0;
   npts_area = 0;
 
   for (n=0; n<ntiles2; n++) {
     tile_offset[n] = npts;
     tile_offset_supergrid[n] = npts_supergrid;
     tile_offset_supergrid_m[n] = npts_supergrid_m;
+    tile_offset_supergrid_e[n] = npts_supergrid_e;
     tile_offset_area[n] = npts_area;
 
     if (verbose) {
@@ -319,7 +323,8 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
 
     npts += (nil[n] + 1) * (njl[n] + 1);
     npts_supergrid += (nxl[n] + 1) * (nyl[n] + 1);
-    npts_supergrid_m += nxl[n] * (nyl[n] + 1);    // needed for grids of dx, dy
+    npts_supergrid_m += nxl[n] * (nyl[n] + 1);    // needed for grids of dx
+    npts_supergrid_e += (nxl[n] + 1) * nyl[n];    // needed for grids of dy
     npts_area += nxl[n] * nyl[n];    // needed for area
   }
 
@@ -602,12 +607,12 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
             p2[0] = x[tile_offset_supergrid[n] + (j+1)*(nxl[n]+1)+i];
             p2[1] = y[tile_offset_supergrid[n] + (j+1)*(nxl[n]+1)+i];
 
-            dy[tile_offset_supergrid_m[n] + j*(nxl[n]+1)+i] = great_circle_distance(p1, p2);
+            dy[tile_offset_supergrid_e[n] + j*(nxl[n]+1)+i] = great_circle_distance(p1, p2);
           } /* i <= nxl[n] */
         } /* j < nyl[n] */
       } else /* (!(stretched_grid || n >= 6)) */ {
         for(j=0; j<nyp; j++) {
-          for(i=0; i<nx; i++) dy[tile_offset_supergrid_m[n] + i*nxp+j] = dx[tile_offset_supergrid_m[n] + j*nx+i];
+          for(i=0; i<nx; i++) dy[tile_offset_supergrid_e[n] + i*nxp+j] = dx[tile_offset_supergrid_m[n] + j*nx+i];
         }
       } /* else (!(stretched_grid || n >= 6)) */
     } /* n < ntiles2 */
@@ -733,6 +738,7 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
   free(tile_offset);
   free(tile_offset_supergrid);
   free(tile_offset_supergrid_m);
+  free(tile_offset_supergrid_e);
   free(tile_offset_area);
   free(lon);
   free(lat);
-- 
2.43.0


From 220e89580311904faa1e658c801a98ad930983f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:56 +0000
Subject: [PATCH 036/140] fix: make_hgrid writes the lengths and areas of all
 six conformal cubic tiles

---
 src/make-hgrid/create_conformal_cubic_grid.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/make-hgrid/create_conformal_cubic_grid.c b/src/make-hgrid/create_conformal_cubic_grid.c
index 5ee2399..9ef6942 100644
--- a/src/make-hgrid/create_conformal_cubic_grid.c
+++ b/src/make-hgrid/create_conformal_cubic_grid.c
@@ -53,7 +53,7 @@ void create_conformal_cubic_grid( int *npts, int *nratio, char *method, char *or
 			double *y, double *dx, double *dy, double *area, double *angle_dx,
 			double *angle_dy )
 {
-  int nx, ny, nxp, nyp;
+  int nx, ny, nxp, nyp, n, i;
 
   nx  = *npts;
   ny  = nx;
@@ -69,6 +69,13 @@ void create_conformal_cubic_grid( int *npts, int *nratio, char *method, char *or
   /* calculate cell length and area */
   calc_fvgrid(nx, ny, *nratio, dx, dy, area);
 
+  /* all six faces have the same length and area */
+  for(n=1; n<6; n++) {
+    for(i=0; i<nx*nyp; i++) dx[n*nx*nyp+i] = dx[i];
+    for(i=0; i<nxp*ny; i++) dy[n*nxp*ny+i] = dy[i];
+    for(i=0; i<nx*ny; i++) area[n*nx*ny+i] = area[i];
+  }
+
   /*calculate rotation angle, just some workaround, will modify this in the future. */
   calc_rotation_angle(nxp, nyp, x, y, angle_dx, angle_dy );
 
-- 
2.43.0


From 39d9dd7dd9255e708997449a4f5c118a93b50649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:42 +0000
Subject: [PATCH 037/140] fix: make_vgrid --stretch does not require whole
 cells in the stretched region

---
 lib/libfrencutils/tool_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfrencutils/tool_util.c b/lib/libfrencutils/tool_util.c
index a199879..772d98f 100644
--- a/lib/libfrencutils/tool_util.c
+++ b/lib/libfrencutils/tool_util.c
@@ -643,7 +643,7 @@ double* compute_grid_bound_legacy(int nb, const double *bnds, const double *dbnd
 	else
 	  break;
       }
-      if( stretch == 1 || l != nb-1 ) {
+      if( stretch == 1 || l != nb-2 ) {
 	if( fabs(an-n) > tol ) {
 	  if(mpp_pe() == mpp_root_pe()) {
 	    printf("==>Error: non integral number of cells in region #%d, average resolution within "
-- 
2.43.0


From 38413a7ebdf3513939b7d7ecb092df890a85b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:01 +0000
Subject: [PATCH 038/140] fix: make_vgrid has room for the command line of
 MAXBOUNDS bounds

---
 src/make-vgrid/make_vgrid.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/make-vgrid/make_vgrid.c b/src/make-vgrid/make_vgrid.c
index 0b9b06a..1b64fbe 100644
--- a/src/make-vgrid/make_vgrid.c
+++ b/src/make-vgrid/make_vgrid.c
@@ -142,8 +142,8 @@ int main(int argc, char* argv[])
   double *zeta;
   double stretch = 1;
   char center[32] = "none";
-  char entry[512];
-  char history[256];
+  char entry[MAXBOUNDS*32];
+  char history[MAXBOUNDS*64+512];
   int errflg, c, option_index = 0;
   static struct option long_options[]= {
     {"nbnds",    required_argument, NULL, 'n'},
-- 
2.43.0


From ff563c9c367358e716c9a9e809a70413e3a34493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:50 +0000
Subject: [PATCH 039/140] fix: fregrid --weight_field can be read from the
 input file, the documented default

---
 src/fre-grid/fregrid.c        | 14 +++-----------
 src/fre-grid/fregrid_util.c   | 17 ++++++++++-------
 src/fre-grid/fregrid_util.h   |  3 ++-
 src/fregrid-gpu/fregrid_gpu.c | 14 +++-----------
 4 files changed, 18 insertions(+), 30 deletions(-)

diff --git a/src/fre-grid/fregrid.c b/src/fre-grid/fregrid.c
index e2911df..0c84db0 100644
--- a/src/fre-grid/fregrid.c
+++ b/src/fre-grid/fregrid.c
@@ -339,7 +339,6 @@ int main(int argc, char* argv[])
   int     shuffle = -1;
   char    *format=NULL;
 
-  char          wt_file_obj[512];
   char          *weight_file=NULL;
   char          *weight_field = NULL;
 
@@ -651,15 +650,8 @@ int main(int argc, char* argv[])
 
   if(weight_field) {
     if(nvector >0) mpp_error("fregrid: weight_field should not be specified for vector interpolation, contact developer");
-    if(!weight_file) {
-
-      if(nfiles==0) mpp_error("fregrid: weight_field is specified, but both weight_file and input_file are not specified");
-      if(dir_in)
-	sprintf(wt_file_obj, "%s/%s", dir_in, input_file[0]);
-      else
-	sprintf(wt_file_obj, "./%s", input_file[0]);
-      weight_file = wt_file_obj;
-    }
+    if(!weight_file && nfiles==0)
+      mpp_error("fregrid: weight_field is specified, but both weight_file and input_file are not specified");
   }
 
   if(nvector > 0) {
@@ -907,7 +899,7 @@ int main(int argc, char* argv[])
     get_input_metadata(ntiles_in, nfiles, file_in, file2_in, scalar_in, u_in, v_in, grid_in,
 		       kbegin, kend, lbegin, lend, opcode, associated_file_dir);
 
-    set_weight_inf( ntiles_in, grid_in, weight_file, weight_field, file_in->has_cell_measure_att);
+    set_weight_inf( ntiles_in, grid_in, file_in, weight_file, weight_field, file_in->has_cell_measure_att);
 
     //If the netcdf format was specified as an input argument, use that format. Otherwise
     // use the format from the first ( tile 0) input file.
diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index bc1094b..c6f26cf 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -120,30 +120,33 @@ void set_field_struct(int ntiles, Field_config *field, int nvar, char * varname,
 
 
 /*******************************************************************************
-  void set_weight_inf(int ntiles, Grid_config *grid, const char *weight_file, const char *weight_field);
+  void set_weight_inf(): weight_file defaults to the input file
   read the weight information
 *******************************************************************************/
-void set_weight_inf(int ntiles, Grid_config *grid, const char *weight_file, const char *weight_field,
-		    int has_cell_measure_att)
+void set_weight_inf(int ntiles, Grid_config *grid, const File_config *file_in, const char *weight_file,
+		    const char *weight_field, int has_cell_measure_att)
 {
-  int n, fid, vid;
+  int n, fid, vid, is_input;
   char file[512];
 
   for(n=0; n<ntiles; n++) grid[n].weight_exist = 0;
   if( !weight_field || has_cell_measure_att ) return;
 
   for(n=0; n<ntiles; n++) {
-    if(ntiles==1)
+    if(!weight_file)
+      strcpy( file, file_in[n].name );
+    else if(ntiles==1)
       strcpy( file, weight_file );
     else
       sprintf(file, "%s.tile%d.nc", weight_file, n+1);
+    is_input = !strcmp(file, file_in[n].name); /* the input file is already opened */
 
     grid[n].weight_exist = 1;
     grid[n].weight = (double *)malloc(grid[n].nx*grid[n].ny*sizeof(double));
-    fid = mpp_open(file, MPP_READ);
+    fid = is_input ? file_in[n].fid : mpp_open(file, MPP_READ);
     vid = mpp_get_varid(fid, weight_field);
     mpp_get_var_value(fid, vid, grid[n].weight);
-    mpp_close(fid);
+    if(!is_input) mpp_close(fid);
   }
 
 
diff --git a/src/fre-grid/fregrid_util.h b/src/fre-grid/fregrid_util.h
index 5b18490..e475eef 100644
--- a/src/fre-grid/fregrid_util.h
+++ b/src/fre-grid/fregrid_util.h
@@ -49,7 +49,8 @@ void get_test_input_data(char *test_case, double test_param, int ntiles, Field_c
 void get_input_output_cell_area(int ntiles_in, Grid_config *grid_in, int ntiles_out, Grid_config *grid_out, unsigned int opcode);
 void allocate_field_data(int ntiles, Field_config *field, Grid_config *grid, int nz);
 void write_field_data(int ntiles, Field_config *field, Grid_config *grid, int varid, int level_z, int level_n, int level_t);
-void set_weight_inf(int ntiles, Grid_config *grid, const char *weight_file, const char *weight_field, int has_cell_measure_att);
+void set_weight_inf(int ntiles, Grid_config *grid, const File_config *file_in, const char *weight_file,
+                    const char *weight_field, int has_cell_measure_att);
 void get_output_vgrid( VGrid_config *vgrid, const char *vgrid_file );
 void get_input_vgrid( VGrid_config *vgrid, const char *vgrid_file, const char *field );
 void setup_vertical_interp(VGrid_config *vgrid_in, VGrid_config *vgrid_out);
diff --git a/src/fregrid-gpu/fregrid_gpu.c b/src/fregrid-gpu/fregrid_gpu.c
index f2e3aaf..dae8a7e 100644
--- a/src/fregrid-gpu/fregrid_gpu.c
+++ b/src/fregrid-gpu/fregrid_gpu.c
@@ -327,7 +327,6 @@ int main(int argc, char* argv[])
   int     shuffle = -1;
   char    *format=NULL;
 
-  char          wt_file_obj[512];
   char          *weight_file=NULL;
   char          *weight_field = NULL;
 
@@ -613,15 +612,8 @@ int main(int argc, char* argv[])
 
   if(weight_field) {
     if(nvector >0) mpp_error("fregrid: weight_field should not be specified for vector interpolation, contact developer");
-    if(!weight_file) {
-
-      if(nfiles==0) mpp_error("fregrid: weight_field is specified, but weight_file and input_file are not specified");
-      if(dir_in)
-        sprintf(wt_file_obj, "%s/%s", dir_in, input_file[0]);
-      else
-        sprintf(wt_file_obj, "./%s", input_file[0]);
-      weight_file = wt_file_obj;
-    }
+    if(!weight_file && nfiles==0)
+      mpp_error("fregrid: weight_field is specified, but both weight_file and input_file are not specified");
   }
 
   if(nvector > 0) {
@@ -850,7 +842,7 @@ int main(int argc, char* argv[])
     get_input_metadata(ntiles_in, nfiles, file_in, file2_in, scalar_in, u_in, v_in, grid_in,
                        kbegin, kend, lbegin, lend, opcode, associated_file_dir);
 
-    set_weight_inf( ntiles_in, grid_in, weight_file, weight_field, file_in->has_cell_measure_att);
+    set_weight_inf( ntiles_in, grid_in, file_in, weight_file, weight_field, file_in->has_cell_measure_att);
 
     //If the netcdf format was specified as an input argument, use that format. Otherwise
     // use the format from the first ( tile 0) input file.
-- 
2.43.0


From 1bb9fa20cee051c208fb7fd55973f1af48c3f61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:29 +0000
Subject: [PATCH 040/140] fix: fregrid rounds the values of integer fields to
 the nearest

---
 src/fre-grid/fregrid_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index c6f26cf..ee3e4c8 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -2399,13 +2399,13 @@ void write_field_data(int ntiles, Field_config *field, Grid_config *grid, int va
     switch(field[n].var[varid].type) {
     case NC_SHORT:
       data_i2 = (short *)malloc(data_size*sizeof(short));
-      for(i=0; i<data_size; i++) data_i2[i] = (short)gdata[i];
+      for(i=0; i<data_size; i++) data_i2[i] = (short)lround(gdata[i]);
       if(mpp_pe() == mpp_root_pe()) mpp_put_var_value_block(*(field[n].fid), field[n].var[varid].vid, start, nwrite, data_i2);
       free(data_i2);
       break;
     case NC_INT:
       data_i4 = (int *)malloc(data_size*sizeof(int));
-      for(i=0; i<data_size; i++) data_i4[i] = (int)gdata[i];
+      for(i=0; i<data_size; i++) data_i4[i] = (int)lround(gdata[i]);
       if(mpp_pe() == mpp_root_pe()) mpp_put_var_value_block(*(field[n].fid), field[n].var[varid].vid, start, nwrite, data_i4);
       free(data_i4);
       break;
-- 
2.43.0


From 859d3bc2427fe2468a3631782c18874e847b1d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:08 +0000
Subject: [PATCH 041/140] fix: fregrid copies the records of requested fields
 that are not on the grid

---
 lib/libfrencutils/globals.h |  1 +
 src/fre-grid/fregrid_util.c | 25 +++++++++++++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/lib/libfrencutils/globals.h b/lib/libfrencutils/globals.h
index cbd4d17..f18fca0 100644
--- a/lib/libfrencutils/globals.h
+++ b/lib/libfrencutils/globals.h
@@ -120,6 +120,7 @@ typedef struct {
   int  vid;
   int  bndid;
   int  size;
+  int  start;       /* index of the first point in the input file */
   nc_type type;
   char cart; 
   int  bndtype;
diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index ee3e4c8..6f29c4d 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -1311,8 +1311,15 @@ void get_input_metadata(int ntiles, int nfiles, File_config *file1, File_config
                 start[0] = 0;
                 file[n].axis[j].size = dimsize[i];
               }
-            } else
+            } else {
+              start[0] = 0;
               file[n].axis[j].size = dimsize[i];
+              if (cart[i] == 'T' && lbegin > 0) {
+                start[0] = lbegin - 1;
+                file[n].axis[j].size = lend - lbegin + 1;
+              }
+            }
+            file[n].axis[j].start = start[0];
             file[n].axis[j].data = (double *)malloc(file[n].axis[j].size * sizeof(double));
             nread[0] = file[n].axis[j].size;
             mpp_get_var_value_block(file[n].fid, file[n].axis[j].vid, start, nread, file[n].axis[j].data);
@@ -1879,7 +1886,21 @@ void set_output_metadata (int ntiles_in, int nfiles, const File_config *file1_in
 	*/
 	for(l=0; l<nscalar; l++) {
 	  if( scalar_in[0].var[l].is_axis_data || scalar_in[0].var[l].do_regrid ) continue;
-	  mpp_copy_data(file_in[0].fid, scalar_in[0].var[l].vid, file_out[n].fid, scalar_out[n].var[l].vid);
+	  size_t start[5], count[5], dsize = 1;
+	  void *data;
+	  int ind;
+	  /* copy the part of each dimension that is in the output, records included */
+	  for(i=0; i<scalar_in[0].var[l].ndim; i++) {
+	    ind = scalar_in[0].var[l].index[i];
+	    start[i] = file_in[0].axis[ind].start;
+	    count[i] = min(file_in[0].axis[ind].size, file_out[n].axis[ind].size);
+	    dsize *= count[i];
+	  }
+	  data = malloc(dsize*sizeof(double));
+	  mpp_get_var_value_block(file_in[0].fid, scalar_in[0].var[l].vid, start, count, data);
+	  for(i=0; i<scalar_in[0].var[l].ndim; i++) start[i] = 0;
+	  mpp_put_var_value_block(file_out[n].fid, scalar_out[n].var[l].vid, start, count, data);
+	  free(data);
 	}
       }
     }
-- 
2.43.0


From f2c6fcf8c2c7650940e7a8328a971885495c293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:57 +0000
Subject: [PATCH 042/140] fix: fregrid --format and --deflation do not depend
 on the format of the input

---
 lib/libfrencutils/mpp_io.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/libfrencutils/mpp_io.c b/lib/libfrencutils/mpp_io.c
index 58c4499..7079473 100644
--- a/lib/libfrencutils/mpp_io.c
+++ b/lib/libfrencutils/mpp_io.c
@@ -1034,10 +1034,11 @@ void mpp_set_deflation(int fid_in, int fid_out, int user_deflation, int user_shu
     }
 
     // return if netcdf3 which does not support compression
-    int format;
+    int format, format_in;
     char errmsg[512];
     int status;
-    status = nc_inq_format(files[fid_in].ncid, &format);
+    status = nc_inq_format(files[fid_out].ncid, &format);
+    if (status == NC_NOERR) status = nc_inq_format(files[fid_in].ncid, &format_in);
     if (status != NC_NOERR) {
         sprintf(errmsg, "mpp_io(mpp_set_deflation): Error in getting determining netcdf version");
         netcdf_error(errmsg, status);
@@ -1066,7 +1067,10 @@ void mpp_set_deflation(int fid_in, int fid_out, int user_deflation, int user_shu
             // Note: MPP variable IDs, such as vid_in above, are not the same as the netCDF variable ID
             // used in native netCDF routines such as nc_inq_var_deflate below.
             // The fldid (field id, probably) data structure contains the netCDF variable ID.
-            status = nc_inq_var_deflate(files[fid_in].ncid, files[fid_in].var[vid_in].fldid, &shuffle_in, &deflate_in, &deflation_in);
+            if (format_in == NC_FORMAT_CLASSIC || format_in == NC_FORMAT_64BIT)
+                shuffle_in = deflation_in = 0;
+            else
+                status = nc_inq_var_deflate(files[fid_in].ncid, files[fid_in].var[vid_in].fldid, &shuffle_in, &deflate_in, &deflation_in);
             if (status != NC_NOERR) {
                 sprintf(errmsg, "mpp_io(mpp_set_deflation): Error in getting deflation level");
                 netcdf_error(errmsg, status);
-- 
2.43.0


From 726d3b4b0863b9801da4e0e55b0b5c3d6cf60ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:19 +0000
Subject: [PATCH 043/140] fix: fregrid --target_grid does not depend on an
 unset cell measure flag

---
 src/fre-grid/fregrid_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 6f29c4d..bce6049 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -677,6 +677,7 @@ void init_var_config(Var_config *var, int interp_method)
   var->lstart        = 0;
   var->lend          = 0;
   var->ndim          = 0;
+  var->use_volume    = 0;
   var->interp_method = interp_method;
 
 }
-- 
2.43.0


From e747d5f6b53f5344e5050376e1ca39971b97513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:19 +0000
Subject: [PATCH 044/140] fix: fregrid has room for the axis indices of
 five-dimensional fields

---
 lib/libfrencutils/globals.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfrencutils/globals.h b/lib/libfrencutils/globals.h
index f18fca0..496a97f 100644
--- a/lib/libfrencutils/globals.h
+++ b/lib/libfrencutils/globals.h
@@ -69,7 +69,7 @@ typedef struct {
   int    vid;
   nc_type type;
   int    ndim;
-  int    index[4];
+  int    index[5];
   int    nz;
   int    nn;
   int    kstart;
-- 
2.43.0


From 2db4cbf194b09e6a3c51fc5a06be33bd0668111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:56 +0000
Subject: [PATCH 045/140] fix: fregrid --KlevelBegin writes the levels from the
 first one of the output

---
 src/fre-grid/fregrid_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index bce6049..78f974e 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -2388,7 +2388,7 @@ void write_field_data(int ntiles, Field_config *field, Grid_config *grid, int va
     if(level_z < 0)
       nwrite[pos++] = nz;
     else
-      start[pos++] = level_z;
+      start[pos++] = level_z - field->var[varid].kstart;
   }
   if(ndim != pos + 2) mpp_error("fregrid_util(write_field_data): mimstch between ndim and has_taxis/has_zaxis/has_naxis");
 
-- 
2.43.0


From 7f0a2d2926764282b4cfa0e5995039b43261f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:41 +0000
Subject: [PATCH 046/140] fix: fregrid unpacks zero of a packed field without
 missing value

---
 src/fre-grid/fregrid_util.c | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 78f974e..deddc33 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -1921,6 +1921,7 @@ void get_field_attribute( int ntiles, Field_config *field)
 
   for(l=0; l<nfield; l++) {
     for(n=0; n<ntiles; n++) {
+      field[n].var[l].has_missing = 0;
       field[n].var[l].missing = 0;
       field[n].var[l].scale   = 0;
       field[n].var[l].offset  = 0;
@@ -1956,6 +1957,7 @@ void copy_field_attribute( int ntiles_out, Field_config *field_in, Field_config
 
   for(n=0; n<ntiles_out; n++)
     for(l=0; l<field_out->nvar; l++) {
+      field_out[n].var[l].has_missing = field_in->var[l].has_missing;
       field_out[n].var[l].missing = field_in->var[l].missing;
       field_out[n].var[l].scale   = field_in->var[l].scale;
       field_out[n].var[l].offset  = field_in->var[l].offset;
@@ -2068,11 +2070,12 @@ void get_input_data(int ntiles, Field_config *field, Grid_config *grid, Bound_co
   short       *data_i2;
   int         *data_i4;
   Data_holder *dHold;
-  int         interp_method;
+  int         interp_method, has_missing;
   double      missing_value;
   size_t      start2[4], nread2[4];
 
   missing_value = field->var[varid].missing;
+  has_missing   = field->var[varid].has_missing;
   interp_method = field->var[varid].interp_method;
   if(interp_method == CONSERVE_ORDER1)
     halo = 0;
@@ -2139,13 +2142,10 @@ void get_input_data(int ntiles, Field_config *field, Grid_config *grid, Bound_co
       mpp_error("fregrid_util(get_input_data): field type should be NC_INT, NC_SHORT, NC_FLOAT or NC_DOUBLE");
     }
 
-    if(field[n].var[varid].scale != 0) {
-      for(i=0; i<nx*ny*nz; i++)
-	if(data[i] != missing_value) data[i] *= field[n].var[varid].scale;
-    }
-    if(field[n].var[varid].offset != 0) {
-      for(i=0; i<nx*ny*nz; i++)
-	if(data[i] != missing_value) data[i] += field[n].var[varid].offset;
+    for(i=0; i<nx*ny*nz; i++) {
+      if(has_missing && data[i] == missing_value) continue;
+      if(field[n].var[varid].scale != 0) data[i] *= field[n].var[varid].scale;
+      data[i] += field[n].var[varid].offset;
     }
 
     /* extrapolate data if needed */
@@ -2400,13 +2400,10 @@ void write_field_data(int ntiles, Field_config *field, Grid_config *grid, int va
     nwrite[pos+1] = nx;
     data_size = nx*ny*nz;
 
-    if(field[n].var[varid].offset != 0) {
-      for(i=0; i<nx*ny*nz; i++)
-	if(field[n].data[i] != missing_value) field[n].data[i] -= field[n].var[varid].offset;
-    }
-    if(field[n].var[varid].scale != 0) {
-      for(i=0; i<nx*ny*nz; i++)
-	if(field[n].data[i] != missing_value) field[n].data[i] /= field[n].var[varid].scale;
+    for(i=0; i<nx*ny*nz; i++) {
+      if(field[n].var[varid].has_missing && field[n].data[i] == missing_value) continue;
+      field[n].data[i] -= field[n].var[varid].offset;
+      if(field[n].var[varid].scale != 0) field[n].data[i] /= field[n].var[varid].scale;
     }
 
     if(mpp_npes() == 1) {
-- 
2.43.0


From c33f86e597fc84e738d6d10560382d95b8eeedcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:07 +0000
Subject: [PATCH 047/140] fix: fregrid closes the mosaic after reading the
 names of its tiles

set_mosaic_data_file left the mosaic open, so that reading it again (two
multi-tile input files, the same mosaic for input and output) was refused.
---
 src/fre-grid/fregrid_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index deddc33..22663d3 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -94,6 +94,7 @@ void set_mosaic_data_file(int ntiles, const char *mosaic_file, const char *dir,
     else
       sprintf(file[i].name, "%s.nc", str2);
   }
+  if(ntiles > 1) mpp_close(fid);
 
 }; /* setup_data_file */
 
-- 
2.43.0


From 789b77b3958b7837b38840d44319da99d58aa1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:07 +0000
Subject: [PATCH 048/140] fix: fregrid reads the gradient information for
 fields with interp_method conserve_order2

When the command line asked for conserve_order1 (the default) and a field
has the attribute interp_method = conserve_order2, the order was changed
after the grid had been read without it, and fregrid crashed.
---
 src/fre-grid/fregrid.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fre-grid/fregrid.c b/src/fre-grid/fregrid.c
index 0c84db0..c52ffd7 100644
--- a/src/fre-grid/fregrid.c
+++ b/src/fre-grid/fregrid.c
@@ -335,6 +335,7 @@ int main(int argc, char* argv[])
   unsigned int  finer_step = 0;
   int     debug = 0;
   int     great_circle_algorithm_in, great_circle_algorithm_out;
+  int     order1_asked;
   int     deflation = -1;
   int     shuffle = -1;
   char    *format=NULL;
@@ -918,6 +919,7 @@ int main(int argc, char* argv[])
     if(debug) print_mem_usage("After set_output_metadata");
     /* when the interp_method specified through command line is CONSERVE_ORDER1, but the interp_method in the source file
        field attribute is CONSERVE_ORDER2, need to modify the interp_method value */
+    order1_asked = opcode & CONSERVE_ORDER1;
     if(opcode & CONSERVE_ORDER1) {
       for(l=0; l<nscalar; l++) {
 	if(scalar_out->var[l].interp_method == CONSERVE_ORDER2) {
@@ -942,6 +944,14 @@ int main(int argc, char* argv[])
 	}
       }
     }
+    /* the grid information needed for the gradient was not read when the command line asked for conserve_order1 */
+    if( (opcode & CONSERVE_ORDER2) && order1_asked ) {
+      if( ntiles_in != 6 )
+	mpp_error("fregrid: when the input grid is not cubic sphere grid, interp_method can not be conserve_order2");
+      if( opcode & GREAT_CIRCLE )
+	mpp_error("fregrid: when clip_method is 'conserve_great_circle', interp_methos need to be 'conserve_order1', contact developer");
+      get_input_grid( ntiles_in, grid_in, bound_T, mosaic_in, opcode, &great_circle_algorithm_in, save_weight_only );
+    }
   }
 
   /* preparing for the interpolation, if remapping information exist, read it from remap_file,
-- 
2.43.0


From 21883c12e9ec578b438611924c9c57a4fb522f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:55 +0000
Subject: [PATCH 049/140] fix: fregrid conserve_order2_monotonic keeps values
 in the range of the source around

The range of the neighbours took zero for the cells beyond the corners of
a tile, and only one of overshoot and undershoot was limited.  Large data
could also stop the run because the rounding error of the limited value
was compared with an absolute tolerance.
---
 src/fre-grid/conserve_interp.c | 42 +++++++++++++---------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/src/fre-grid/conserve_interp.c b/src/fre-grid/conserve_interp.c
index bc61291..4c11674 100644
--- a/src/fre-grid/conserve_interp.c
+++ b/src/fre-grid/conserve_interp.c
@@ -34,7 +34,6 @@
 
 #define  AREA_RATIO (1.e-3)
 #define  MAXVAL (1.e20)
-#define  TOLERANCE  (1.e-10)
 /*******************************************************************************
   void setup_conserve_interp
   Setup the interpolation weight for conservative interpolation
@@ -616,7 +615,7 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
     }
     else if(monotonic) {
       int ii, jj;
-      double f_bar;
+      double f_bar, scale;
       double *xdata;
       for(n=0; n<ntiles_in; n++) {
 	nx1 =  grid_in[n].nx;
@@ -634,6 +633,8 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	  monotone_data[n].f_min[n1]     = MAXVAL;
 	  n1 = j*nx1+i;
 	  for(jj=j-1; jj<=j+1; jj++) for(ii=i-1; ii<=i+1; ii++) {
+	    /* there is no cell beyond the corners of the tile */
+	    if( (ii<0 || ii>=nx1) && (jj<0 || jj>=ny1) ) continue;
 	    n2 = (jj+1)*(nx1+2)+ii+1;
 	    if( field_in[n].data[n2] != missing ) {
 	      if( field_in[n].data[n2] > monotone_data[n].f_bar_max[n1] ) monotone_data[n].f_bar_max[n1] = field_in[n].data[n2];
@@ -686,30 +687,18 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	f_bar = field_in[tile].data[n2];
 	if(xdata[n] == missing) continue;
 
-	if( monotone_data[tile].f_max[n1] > monotone_data[tile].f_bar_max[n1] ) {
-	  /* z1l: Due to truncation error, we might get xdata[n] > f_bar_max[n1]. So
-	     we allow some tolerance. What is the suitable tolerance? */
-	  xdata[n] = f_bar + ((xdata[n]-f_bar)/(monotone_data[tile].f_max[n1]-f_bar))
-	    * (monotone_data[tile].f_bar_max[n1]-f_bar);
-	  if( xdata[n] > monotone_data[tile].f_bar_max[n1]) {
-	    if(xdata[n] - monotone_data[tile].f_bar_max[n1] < TOLERANCE ) xdata[n] = monotone_data[tile].f_bar_max[n1];
-	    if( xdata[n] > monotone_data[tile].f_bar_max[n1]) {
-	      printf(" n = %d, n1 = %d, xdata = %f, f_bar_max=%f\n", n, n1, xdata[n], monotone_data[tile].f_bar_max[n1]);
-	      mpp_error(" xdata is greater than f_bar_max ");
-	    }
-	  }
-	}
-	else if( monotone_data[tile].f_min[n1] < monotone_data[tile].f_bar_min[n1] ) {
-	  /* z1l: Due to truncation error, we might get xdata[n] < f_bar_min[n1]. So
-	     we allow some tolerance. What is the suitable tolerance? */
-	  xdata[n] = f_bar + ((xdata[n]-f_bar)/(monotone_data[tile].f_min[n1]-f_bar)) * (monotone_data[tile].f_bar_min[n1]-f_bar);
-	  if( xdata[n] < monotone_data[tile].f_bar_min[n1]) {
-	    if(monotone_data[tile].f_bar_min[n1] - xdata[n]< TOLERANCE ) xdata[n] = monotone_data[tile].f_bar_min[n1];
-	    if( xdata[n] < monotone_data[tile].f_bar_min[n1]) {
-	      printf(" n = %d, n1 = %d, xdata = %f, f_bar_min=%f\n", n, n1, xdata[n], monotone_data[tile].f_bar_min[n1]);
-	      mpp_error(" xdata is less than f_bar_min ");
-	    }
-	  }
+	/* the values of all the exchange cells of a source cell are scaled by the same factor, so that both
+	   the largest and the smallest of them stay in the range of the source and the mean is kept */
+	scale = 1.0;
+	if( monotone_data[tile].f_max[n1] > monotone_data[tile].f_bar_max[n1] )
+	  scale = (monotone_data[tile].f_bar_max[n1]-f_bar)/(monotone_data[tile].f_max[n1]-f_bar);
+	if( monotone_data[tile].f_min[n1] < monotone_data[tile].f_bar_min[n1] )
+	  scale = min(scale, (monotone_data[tile].f_bar_min[n1]-f_bar)/(monotone_data[tile].f_min[n1]-f_bar));
+	if( scale < 1.0 ) {
+	  xdata[n] = f_bar + (xdata[n]-f_bar)*scale;
+	  /* Due to truncation error, xdata might be slightly out of the range */
+	  if( xdata[n] > monotone_data[tile].f_bar_max[n1] ) xdata[n] = monotone_data[tile].f_bar_max[n1];
+	  if( xdata[n] < monotone_data[tile].f_bar_min[n1] ) xdata[n] = monotone_data[tile].f_bar_min[n1];
 	}
       }
       for(n=0; n<ntiles_in; n++) {
@@ -737,6 +726,7 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	  area *= (field_in[tile].area[n1]/grid_in[tile].cell_area[n1]);
 	field_out[m].data[n0] += xdata[n]*area;
 	out_area[n0] += area;
+	out_miss[n0] = 1;
       }
       free(xdata);
     }
-- 
2.43.0


From 024fa68386b0c52ac8c210389693e59e4320db03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:35 +0000
Subject: [PATCH 050/140] fix: fregrid conserve_order2_monotonic limits a
 source cell alike for all output tiles

The extremes of the reconstruction were taken over the exchange cells of
one output tile, so that the total was not conserved when the source cell
lies in several output tiles.
---
 src/fre-grid/conserve_interp.c | 117 +++++++++++++++++++--------------
 1 file changed, 69 insertions(+), 48 deletions(-)

diff --git a/src/fre-grid/conserve_interp.c b/src/fre-grid/conserve_interp.c
index 4c11674..05a049b 100644
--- a/src/fre-grid/conserve_interp.c
+++ b/src/fre-grid/conserve_interp.c
@@ -545,7 +545,62 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
   if( nz>1 && cell_methods == CELL_METHODS_SUM ) mpp_error("conserve_interp: cell_methods should not be sum when nz > 1");
   /*  if( nz>1 && monotonic ) mpp_error("conserve_interp: monotonic should be false when nz > 1"); */
 
-  if(monotonic) monotone_data = (Monotone_config *)malloc(ntiles_in*sizeof(Monotone_config));
+  if(monotonic) {
+    int ii, jj;
+    double xval;
+
+    monotone_data = (Monotone_config *)malloc(ntiles_in*sizeof(Monotone_config));
+    for(n=0; n<ntiles_in; n++) {
+	nx1 =  grid_in[n].nx;
+	ny1 =  grid_in[n].ny;
+	monotone_data[n].f_bar_max = (double *)malloc(nx1*ny1*sizeof(double));
+	monotone_data[n].f_bar_min = (double *)malloc(nx1*ny1*sizeof(double));
+	monotone_data[n].f_max     = (double *)malloc(nx1*ny1*sizeof(double));
+	monotone_data[n].f_min     = (double *)malloc(nx1*ny1*sizeof(double));
+	for(j=0; j<ny1; j++) for(i=0; i<nx1; i++) {
+	  n1 = j*nx1+i;
+
+	  monotone_data[n].f_bar_max[n1] = -MAXVAL;
+	  monotone_data[n].f_bar_min[n1] = MAXVAL;
+	  monotone_data[n].f_max[n1]     = -MAXVAL;
+	  monotone_data[n].f_min[n1]     = MAXVAL;
+	  n1 = j*nx1+i;
+	  for(jj=j-1; jj<=j+1; jj++) for(ii=i-1; ii<=i+1; ii++) {
+	    /* there is no cell beyond the corners of the tile */
+	    if( (ii<0 || ii>=nx1) && (jj<0 || jj>=ny1) ) continue;
+	    n2 = (jj+1)*(nx1+2)+ii+1;
+	    if( field_in[n].data[n2] != missing ) {
+	      if( field_in[n].data[n2] > monotone_data[n].f_bar_max[n1] ) monotone_data[n].f_bar_max[n1] = field_in[n].data[n2];
+	      if( field_in[n].data[n2] < monotone_data[n].f_bar_min[n1] ) monotone_data[n].f_bar_min[n1] = field_in[n].data[n2];
+	    }
+	  }
+	}
+    }
+
+    /* the extremes of the reconstruction, over the exchange cells of all the output tiles */
+    for(m=0; m<ntiles_out; m++) for(n=0; n<interp[m].nxgrid; n++) {
+      i1   = interp[m].i_in [n];
+      j1   = interp[m].j_in [n];
+      tile = interp[m].t_in [n];
+      nx1  = grid_in[tile].nx;
+      n1 = j1*nx1+i1;
+      n2 = (j1+1)*(nx1+2)+i1+1;
+      if( field_in[tile].data[n2] == missing ) continue;
+      xval = field_in[tile].data[n2];
+      if( !field_in[tile].grad_mask[n1] )
+	xval += field_in[tile].grad_x[n1]*interp[m].di_in[n]+field_in[tile].grad_y[n1]*interp[m].dj_in[n];
+      if( xval > monotone_data[tile].f_max[n1]) monotone_data[tile].f_max[n1] = xval;
+      if( xval < monotone_data[tile].f_min[n1]) monotone_data[tile].f_min[n1] = xval;
+    }
+
+    /* get the global f_max and f_min */
+    if(mpp_npes() >1) {
+      for(n=0; n<ntiles_in; n++) {
+	mpp_min_double(grid_in[n].nx*grid_in[n].ny, monotone_data[n].f_min);
+	mpp_max_double(grid_in[n].nx*grid_in[n].ny, monotone_data[n].f_max);
+      }
+    }
+  }
 
   for(m=0; m<ntiles_out; m++) {
     nx2 = grid_out[m].nxc;
@@ -614,36 +669,8 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
       }
     }
     else if(monotonic) {
-      int ii, jj;
       double f_bar, scale;
       double *xdata;
-      for(n=0; n<ntiles_in; n++) {
-	nx1 =  grid_in[n].nx;
-	ny1 =  grid_in[n].ny;
-	monotone_data[n].f_bar_max = (double *)malloc(nx1*ny1*sizeof(double));
-	monotone_data[n].f_bar_min = (double *)malloc(nx1*ny1*sizeof(double));
-	monotone_data[n].f_max     = (double *)malloc(nx1*ny1*sizeof(double));
-	monotone_data[n].f_min     = (double *)malloc(nx1*ny1*sizeof(double));
-	for(j=0; j<ny1; j++) for(i=0; i<nx1; i++) {
-	  n1 = j*nx1+i;
-
-	  monotone_data[n].f_bar_max[n1] = -MAXVAL;
-	  monotone_data[n].f_bar_min[n1] = MAXVAL;
-	  monotone_data[n].f_max[n1]     = -MAXVAL;
-	  monotone_data[n].f_min[n1]     = MAXVAL;
-	  n1 = j*nx1+i;
-	  for(jj=j-1; jj<=j+1; jj++) for(ii=i-1; ii<=i+1; ii++) {
-	    /* there is no cell beyond the corners of the tile */
-	    if( (ii<0 || ii>=nx1) && (jj<0 || jj>=ny1) ) continue;
-	    n2 = (jj+1)*(nx1+2)+ii+1;
-	    if( field_in[n].data[n2] != missing ) {
-	      if( field_in[n].data[n2] > monotone_data[n].f_bar_max[n1] ) monotone_data[n].f_bar_max[n1] = field_in[n].data[n2];
-	      if( field_in[n].data[n2] < monotone_data[n].f_bar_min[n1] ) monotone_data[n].f_bar_min[n1] = field_in[n].data[n2];
-	    }
-	  }
-	}
-      }
-
       xdata = (double *)malloc(interp[m].nxgrid*sizeof(double));
       for(n=0; n<interp[m].nxgrid; n++) {
 	i1   = interp[m].i_in [n];
@@ -651,6 +678,7 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	di   = interp[m].di_in[n];
 	dj   = interp[m].dj_in[n];
 	tile = interp[m].t_in [n];
+	nx1  = grid_in[tile].nx;
 	n1 = j1*nx1+i1;
         n2 = (j1+1)*(nx1+2)+i1+1;
 	if( field_in[tile].data[n2] != missing ) {
@@ -660,28 +688,17 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	  else {
 	    xdata[n] = field_in[tile].data[n2]+field_in[tile].grad_x[n1]*di+field_in[tile].grad_y[n1]*dj;
 	  }
-	  if(monotonic) {
-	    if( xdata[n] > monotone_data[tile].f_max[n1]) monotone_data[tile].f_max[n1] = xdata[n];
-	    if( xdata[n] < monotone_data[tile].f_min[n1]) monotone_data[tile].f_min[n1] = xdata[n];
-	  }
 	}
 	else
 	  xdata[n] = missing;
       }
 
-      /* get the global f_max and f_min */
-      if(mpp_npes() >1) {
-	for(n=0; n<ntiles_in; n++) {
-	  mpp_min_double(nx1*ny1, monotone_data[n].f_min);
-	  mpp_max_double(nx1*ny1, monotone_data[n].f_max);
-	}
-      }
-
       /* adjust the exchange grid cell data to make it monotonic */
       for(n=0; n<interp[m].nxgrid; n++) {
 	i1   = interp[m].i_in [n];
 	j1   = interp[m].j_in [n];
 	tile = interp[m].t_in [n];
+	nx1  = grid_in[tile].nx;
 	n1 = j1*nx1+i1;
 	n2 = (j1+1)*(nx1+2)+i1+1;
 	f_bar = field_in[tile].data[n2];
@@ -701,13 +718,6 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	  if( xdata[n] < monotone_data[tile].f_bar_min[n1] ) xdata[n] = monotone_data[tile].f_bar_min[n1];
 	}
       }
-      for(n=0; n<ntiles_in; n++) {
-	free(monotone_data[n].f_bar_max);
-	free(monotone_data[n].f_bar_min);
-	free(monotone_data[n].f_max);
-	free(monotone_data[n].f_min);
-      }
-
       /* remap onto destination grid */
       for(n=0; n<interp[m].nxgrid; n++) {
 	i2   = interp[m].i_out[n];
@@ -716,6 +726,7 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	j1   = interp[m].j_in [n];
 	tile = interp[m].t_in [n];
 	area = interp[m].area [n];
+	nx1  = grid_in[tile].nx;
 	if(xdata[n] == missing) continue;
 	if(weight_exist) area *= grid_in[tile].weight[j1*nx1+i1];
 	n1 = j1*nx1+i1;
@@ -860,6 +871,16 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
   }
 
 
+  if(monotonic) {
+    for(n=0; n<ntiles_in; n++) {
+      free(monotone_data[n].f_bar_max);
+      free(monotone_data[n].f_bar_min);
+      free(monotone_data[n].f_max);
+      free(monotone_data[n].f_min);
+    }
+    free(monotone_data);
+  }
+
   /* conservation check if needed */
   if(opcode & CHECK_CONSERVE) {
     double gsum_in, dd;
-- 
2.43.0


From f4a700e03a5cb6ef2c61cd0cc935f88c9b807219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:08 +0000
Subject: [PATCH 051/140] fix: great circle clipping takes the crossing
 direction from the planes of the sides

---
 lib/libfrencutils/create_xgrid.c | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/lib/libfrencutils/create_xgrid.c b/lib/libfrencutils/create_xgrid.c
index e2959c8..034d34b 100644
--- a/lib/libfrencutils/create_xgrid.c
+++ b/lib/libfrencutils/create_xgrid.c
@@ -1942,7 +1942,7 @@ int line_intersect_2D_3D(double *a1, double *a2, double *q1, double *q2, double
   double plane[9];
   double plane_p[2];
   double u;
-  double p1[3], v1[3], v2[3];
+  double p1[3];
   double c1[3], c2[3], c3[3];
   double coincident, sense, norm;
   int    i;
@@ -2075,19 +2075,12 @@ int line_intersect_2D_3D(double *a1, double *a2, double *q1, double *q2, double
     p1[0] = a2[0]-a1[0];
     p1[1] = a2[1]-a1[1];
     p1[2] = a2[2]-a1[2];
-    v1[0] = q2[0]-q1[0];
-    v1[1] = q2[1]-q1[1];
-    v1[2] = q2[2]-q1[2];
-    v2[0] = q3[0]-q2[0];
-    v2[1] = q3[1]-q2[1];
-    v2[2] = q3[2]-q2[2];
 
-    vect_cross(v1, v2, c1);
-    vect_cross(v1, p1, c2);
-
-    sense = dot(c1, c2);
+    /* a1->a2 crosses the plane of the great circle q1->q2 towards the side of q3 or away from it */
+    vect_cross(q1, q2, c1);
+    sense = dot(c1, p1)*dot(c1, q3);
     *inbound = 1;
-    if(sense > 0) *inbound = 2; /* v1 going into v2 in CCW sense */
+    if(sense > 0) *inbound = 2; /* going into the polygon */
   }
 #ifdef debug_test_create_xgrid
     printf("\nNOTE from line_intersect_2D_3D: inbound=%d\n", *inbound);
-- 
2.43.0


From 99363632d1c1590469bf23bcaba18162cfbc3fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:24 +0000
Subject: [PATCH 052/140] fix: fregrid --check_conserve takes the size of each
 output tile

---
 src/fre-grid/conserve_interp.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/fre-grid/conserve_interp.c b/src/fre-grid/conserve_interp.c
index 05a049b..2a933aa 100644
--- a/src/fre-grid/conserve_interp.c
+++ b/src/fre-grid/conserve_interp.c
@@ -452,12 +452,10 @@ void setup_conserve_interp(int ntiles_in, const Grid_config *grid_in, int ntiles
     double *area2;
 
     /* sum over exchange grid to get the area of grid_in */
-    nx1  = grid_out[0].nxc;
-    ny1  = grid_out[0].nyc;
-
-    area2 = (double *)malloc(nx1*ny1*sizeof(double));
-
     for(n=0; n<ntiles_out; n++) {
+      nx1  = grid_out[n].nxc;
+      ny1  = grid_out[n].nyc;
+      area2 = (double *)malloc(nx1*ny1*sizeof(double));
       for(i=0; i<nx1*ny1; i++) area2[i] = 0;
       for(i=0; i<interp[n].nxgrid; i++) {
 	ii = interp[n].j_out[i]*nx1 + interp[n].i_out[i];
@@ -481,11 +479,10 @@ void setup_conserve_interp(int ntiles_in, const Grid_config *grid_in, int ntiles
       }
       ii = max_j*nx1+max_i;
       printf("The maximum ratio change at (%d,%d) = %g, area1=%g, area2=%g\n", max_i, max_j, max_ratio, grid_out[n].cell_area[ii],area2[ii]);
+      free(area2);
 
     }
 
-    free(area2);
-
   }
 
   free(i_in);
-- 
2.43.0


From ff66fd40ce55aca5a6ddce9d75f033e3f0515308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:25 +0000
Subject: [PATCH 053/140] fix: fregrid reads the remap files only when every
 output tile has one

---
 src/fre-grid/fregrid_util.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 22663d3..b11af6f 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -1977,7 +1977,7 @@ void set_remap_file( int ntiles, const char *mosaic_file, const char *remap_file
   int    i, len, m, fid, vid;
   size_t start[4], nread[4];
   char str1[STRING], tilename[STRING];
-  int file_exist;
+  int nexist = 0;
 
   if(!remap_file) return;
 
@@ -2015,11 +2015,13 @@ void set_remap_file( int ntiles, const char *mosaic_file, const char *remap_file
       sprintf(interp[m].remap_file, "%s.nc", str1);
     /* check xgrid file to be read (=1) or write ( = 2) */
     if(!save_weight_only && mpp_file_exist(interp[m].remap_file)) {
-      (*opcode) |= READ;
       interp[m].file_exist = 1;
+      nexist++;
     }
 
   }
+  /* a tile without remap file would have no weights: calculate them all unless every file is there */
+  if(nexist == ntiles) (*opcode) |= READ;
 
   if(ntiles>1) mpp_close(fid);
 
-- 
2.43.0


From df7f36eff7a29dae9167637dc9b94d36d7e64d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:02 +0000
Subject: [PATCH 054/140] fix: fregrid reads the rotation angle at the centres
 of the cells

---
 src/fre-grid/fregrid_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index b11af6f..1c4b089 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -261,7 +261,7 @@ void get_input_grid(int ntiles, Grid_config *grid, Bound_config *bound_T, const
 	grid[n].rotate = 0;
 	for(j=0; j<ny[n]; j++) for(i=0; i<nx[n]; i++) {
           m1 = j*nx[n]+i;
-	  m2 = (2*j+2)*(2*nx[n]+2)+2*i+2;
+	  m2 = (2*j+1)*(2*nx[n]+1)+2*i+1;
 	  grid[n].cosrot[m1] = cos(angle[m2]*D2R);
 	  grid[n].sinrot[m1] = sin(angle[m2]*D2R);
 	  if(fabs(grid[n].sinrot[m1]) > EPSLN10) grid[n].rotate = 1;
-- 
2.43.0


From 28e5f781e9fd1ff746bd35d9894b496c630ce7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:02 +0000
Subject: [PATCH 055/140] fix: fregrid --finer_step averages fields with
 missing values

---
 src/fre-grid/bilinear_interp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fre-grid/bilinear_interp.c b/src/fre-grid/bilinear_interp.c
index ab415fa..ce8c82c 100644
--- a/src/fre-grid/bilinear_interp.c
+++ b/src/fre-grid/bilinear_interp.c
@@ -1118,7 +1118,7 @@ void redu2x(const double *varfin, const double *yfin, int nxfin, int nyfin, doub
   if (has_missing) {
     for(k=0; k<nz; k++) for(j=1; j<nyfin-1; j++) for(i=0; i<nxcrs; i++) {
       n1 = k*nxcrs*nyfin+j*nxcrs+i;
-      if (vartmp[n1] /= missvalue) vartmp[n1] *= cosp[j];
+      if (vartmp[n1] != missvalue) vartmp[n1] *= cosp[j];
     }
     for(k=0; k<nz; k++) for(j=2; j<nyfin-2; j+=2) {
       j2 = j/2;
-- 
2.43.0


From a6fccda38f798e919c1d7a2e7e085188fc46fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:34 +0000
Subject: [PATCH 056/140] fix: fregrid looks for axis data among the scalars
 only, not past the vector fields

---
 src/fre-grid/fregrid_util.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 1c4b089..fbcc944 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -1359,14 +1359,14 @@ void get_input_metadata(int ntiles, int nfiles, File_config *file1, File_config
         }
       }
 
-      /* loop through each variable to see if will be axis data */
-      for (l = 0; l < nfield; l++) {
-        field[n].var[l].is_axis_data = 0;
+      /* loop through each scalar variable to see if will be axis data */
+      for (l = 0; l < nscalar; l++) {
+        scalar[n].var[l].is_axis_data = 0;
         for (i = 0; i < file[n].ndim; i++) {
-          if (!strcmp(field[n].var[l].name, file[n].axis[i].name) ||
-              !strcmp(field[n].var[l].name, file[n].axis[i].bndname) ||
-              !strcmp(field[n].var[l].name, orig_bnd_dimname)) {
-            field[n].var[l].is_axis_data = 1;
+          if (!strcmp(scalar[n].var[l].name, file[n].axis[i].name) ||
+              !strcmp(scalar[n].var[l].name, file[n].axis[i].bndname) ||
+              !strcmp(scalar[n].var[l].name, orig_bnd_dimname)) {
+            scalar[n].var[l].is_axis_data = 1;
             break;
           }
         }
-- 
2.43.0


From 84118871d2cbd239f1ff4855413ba715627073b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:34 +0000
Subject: [PATCH 057/140] fix: fregrid regrids every level of a vector field

---
 src/fre-grid/fregrid.c | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/fre-grid/fregrid.c b/src/fre-grid/fregrid.c
index c52ffd7..46d0c1c 100644
--- a/src/fre-grid/fregrid.c
+++ b/src/fre-grid/fregrid.c
@@ -1105,26 +1105,30 @@ int main(int argc, char* argv[])
    if(debug) print_mem_usage("After do interp");
     /* then interp vector field */
     for(l=0; l<nvector; l++) {
-      if( !u_in[n].var[l].has_taxis && m>0) continue;
+      if( !u_in->var[l].has_taxis && m>0) continue;
       level_t = m + u_in->var[l].lstart;
-      get_input_data(ntiles_in, u_in, grid_in, bound_T, l, level_z, level_n, level_t, extrapolate, stop_crit);
-      get_input_data(ntiles_in, v_in, grid_in, bound_T, l, level_z, level_n, level_t, extrapolate, stop_crit);
-      allocate_field_data(ntiles_out, u_out, grid_out, u_in[n].var[l].nz);
-      allocate_field_data(ntiles_out, v_out, grid_out, u_in[n].var[l].nz);
-      if( opcode & BILINEAR )
-	do_vector_bilinear_interp(interp, l, ntiles_in, grid_in, ntiles_out, grid_out, u_in, v_in, u_out, v_out, finer_step, fill_missing);
-      else
-	do_vector_conserve_interp(interp, l, ntiles_in, grid_in, ntiles_out, grid_out, u_in, v_in, u_out, v_out, opcode);
+      for(level_n =0; level_n < u_in->var[l].nn; level_n++) {
+	for(level_z=u_in->var[l].kstart; level_z <= u_in->var[l].kend; level_z++) {
+	  get_input_data(ntiles_in, u_in, grid_in, bound_T, l, level_z, level_n, level_t, extrapolate, stop_crit);
+	  get_input_data(ntiles_in, v_in, grid_in, bound_T, l, level_z, level_n, level_t, extrapolate, stop_crit);
+	  allocate_field_data(ntiles_out, u_out, grid_out, 1);
+	  allocate_field_data(ntiles_out, v_out, grid_out, 1);
+	  if( opcode & BILINEAR )
+	    do_vector_bilinear_interp(interp, l, ntiles_in, grid_in, ntiles_out, grid_out, u_in, v_in, u_out, v_out, finer_step, fill_missing);
+	  else
+	    do_vector_conserve_interp(interp, l, ntiles_in, grid_in, ntiles_out, grid_out, u_in, v_in, u_out, v_out, opcode);
 
-      write_field_data(ntiles_out, u_out, grid_out, l, level_z, level_n, m);
-      write_field_data(ntiles_out, v_out, grid_out, l, level_z, level_n, m);
-      for(n=0; n<ntiles_in; n++) {
-	free(u_in[n].data);
-	free(v_in[n].data);
-      }
-      for(n=0; n<ntiles_out; n++) {
-	free(u_out[n].data);
-	free(v_out[n].data);
+	  write_field_data(ntiles_out, u_out, grid_out, l, level_z, level_n, m);
+	  write_field_data(ntiles_out, v_out, grid_out, l, level_z, level_n, m);
+	  for(n=0; n<ntiles_in; n++) {
+	    free(u_in[n].data);
+	    free(v_in[n].data);
+	  }
+	  for(n=0; n<ntiles_out; n++) {
+	    free(u_out[n].data);
+	    free(v_out[n].data);
+	  }
+	}
       }
     }
   }
-- 
2.43.0


From fb465d039aafc719587fe0b6ea8b7b2fcf2be090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:22 +0000
Subject: [PATCH 058/140] fix: fregrid bilinear does not take a quadrangle on
 the other side of an obtuse corner

---
 src/fre-grid/bilinear_interp.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/fre-grid/bilinear_interp.c b/src/fre-grid/bilinear_interp.c
index ce8c82c..8a4c57f 100644
--- a/src/fre-grid/bilinear_interp.c
+++ b/src/fre-grid/bilinear_interp.c
@@ -738,6 +738,19 @@ int get_index(const Grid_config *grid_in, const Grid_config *grid_out, int *inde
 }; /* get_index */
 
 
+/*------------------------------------------------------------------
+  int inside_angle(angle_a, angle_b, angle)
+  whether the direction at angle_a from one side and angle_b from the
+  other side is between the two sides, which are angle apart. A direction
+  behind a vertex with more than 120 degrees has both below angle as well.
+  ----------------------------------------------------------------*/
+static int inside_angle(double angle_a, double angle_b, double angle)
+{
+  const double eps = 1.e-6;
+
+  return max(angle_a,angle_b) <= angle && angle_a+angle_b <= angle+eps;
+}
+
 /*-------------------------------------------------------------
   determine lower left corner
   void get_closest_index(int ig, int jg, int lg, int ok)
@@ -783,7 +796,7 @@ int get_closest_index(const Grid_config *grid_in, const Grid_config *grid_out, i
   angle_1 =spherical_angle(v1, v2, v3);
   angle_1a=spherical_angle(v1, v2, v0);
   angle_1b=spherical_angle(v1, v3, v0);
-  if (max(angle_1a,angle_1b) <= angle_1) {
+  if (inside_angle(angle_1a,angle_1b,angle_1)) {
     if (i_in==nx_in && j_in==ny_in) {
       angle_11 =spherical_angle(v2, v3, v1);
       angle_11a=spherical_angle(v2, v1, v0);
@@ -798,7 +811,7 @@ int get_closest_index(const Grid_config *grid_in, const Grid_config *grid_out, i
       angle_11a=spherical_angle(v4, v2, v0);
       angle_11b=spherical_angle(v4, v3, v0);
     }
-    if (max(angle_11a,angle_11b)<=angle_11) {
+    if (inside_angle(angle_11a,angle_11b,angle_11)) {
       found = 1;
       index[0]=i_in;
       index[1]=j_in;
@@ -813,7 +826,7 @@ int get_closest_index(const Grid_config *grid_in, const Grid_config *grid_out, i
     angle_2 =spherical_angle(v1,v3,v4);
     angle_2a=angle_1b;
     angle_2b=spherical_angle(v1,v4,v0);
-    if (max(angle_2a,angle_2b)<=angle_2) {
+    if (inside_angle(angle_2a,angle_2b,angle_2)) {
       if (i_in==1 && j_in==ny_in) {
 	angle_22 =spherical_angle(v3, v1, v4);
 	angle_22a=spherical_angle(v3, v4, v0);
@@ -832,7 +845,7 @@ int get_closest_index(const Grid_config *grid_in, const Grid_config *grid_out, i
 	angle_22a=spherical_angle(v5, v6, v0);
 	angle_22b=spherical_angle(v5, v3, v0);
       }
-      if (max(angle_22a,angle_22b)<=angle_22) {
+      if (inside_angle(angle_22a,angle_22b,angle_22)) {
 	found=1;
 	index[0]=i_in-1;
 	index[1]=j_in;
@@ -851,7 +864,7 @@ int get_closest_index(const Grid_config *grid_in, const Grid_config *grid_out, i
       angle_3 =spherical_angle(v1, v5, v6);
       angle_3a=angle_2b;
       angle_3b=spherical_angle(v1, v6, v0);
-      if (max(angle_3a,angle_3b)<=angle_3 && i_in>1 && j_in>1) {
+      if (inside_angle(angle_3a,angle_3b,angle_3) && i_in>1 && j_in>1) {
 	n7 = (j_in-1)*nxd+i_in-1;
 	v7[0]  = grid_in->xt[n7];
 	v7[1]  = grid_in->yt[n7];
@@ -859,7 +872,7 @@ int get_closest_index(const Grid_config *grid_in, const Grid_config *grid_out, i
 	angle_33 =spherical_angle(v7, v6, v5);
 	angle_33a=spherical_angle(v7, v5, v0);
 	angle_33b=spherical_angle(v7, v6, v0);
-	if (max(angle_33a,angle_33b)<=angle_33) {
+	if (inside_angle(angle_33a,angle_33b,angle_33)) {
 	  found=1;
 	  index[0]=i_in-1;
 	  index[1]=j_in-1;
@@ -870,7 +883,7 @@ int get_closest_index(const Grid_config *grid_in, const Grid_config *grid_out, i
 	angle_4 =spherical_angle(v1, v6, v2);
 	angle_4a=angle_3b;
 	angle_4b=spherical_angle(v1, v2, v0);
-	if (max(angle_4a,angle_4b)<=angle_4) {
+	if (inside_angle(angle_4a,angle_4b,angle_4)) {
 	  if (i_in==nx_in && j_in==1) {
 	    angle_44 =spherical_angle(v2, v1, v6);
 	    angle_44a=spherical_angle(v2, v6, v0);
@@ -885,7 +898,7 @@ int get_closest_index(const Grid_config *grid_in, const Grid_config *grid_out, i
 	    angle_44a=spherical_angle(v8, v6, v0);
 	    angle_44b=spherical_angle(v8, v2, v0);
 	  }
-	  if (max(angle_44a,angle_44b)<=angle_44) {
+	  if (inside_angle(angle_44a,angle_44b,angle_44)) {
 	    found=1;
 	    index[0]=i_in;
 	    index[1]=j_in-1;
-- 
2.43.0


From 2cb5211b75c051c5480a29e9b204179eaa5b4954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:23 +0000
Subject: [PATCH 059/140] fix: make_coupler_mosaic: longitude distance to the
 centroid of the second grid

The longitude moments of the exchange cells are taken about the cell of the
first grid; summing them gave the centroid of a cell of the second grid about
several longitudes at once, so tile2_distance was wrong wherever that cell
overlaps more than one cell of the first grid.
---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 44 ++++++++++++++-----
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index f1c424a..f8c0333 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -1232,6 +1232,7 @@ int main (int argc, char *argv[])
       int      axl_i[MX], axl_j[MX], axl_t[MX];
       double   axl_xmin[MX], axl_xmax[MX], axl_ymin[MX], axl_ymax[MX];
       double   axl_area[MX], axl_clon[MX], axl_clat[MX];
+      double   axl_xl_avg[MX], axl_clon_lnd[MX];
       size_t   count;
       int one, intc,atmxlnd_count;
       domain2D Dom;
@@ -1537,6 +1538,8 @@ int main (int argc, char *argv[])
 		if(interp_order == 2) {
 		  axl_clon[count] = 0;
 		  axl_clat[count] = 0;
+		  axl_clon_lnd[count] = 0;
+		  axl_xl_avg[count] = avgval_double(nl_in, xl);
 		}
 
 		/*  remember the exchange grid vertices */
@@ -1667,6 +1670,7 @@ int main (int argc, char *argv[])
 		  atmxocn_ja[na][no][naxo[na][no]]   = ja;
 		  if(interp_order == 2) {
 		    atmxocn_clon[na][no][naxo[na][no]] = poly_ctrlon ( x_out, y_out, n_out, xa_avg)*ocn_frac;
+		    atmxocn_dio[na][no][naxo[na][no]] = poly_ctrlon ( x_out, y_out, n_out, avgval_double(no_in, xo))*ocn_frac;
 		    atmxocn_clat[na][no][naxo[na][no]] = poly_ctrlat ( x_out, y_out, n_out )*ocn_frac;
 		  }
 		  ++(naxo[na][no]);
@@ -1712,6 +1716,7 @@ int main (int argc, char *argv[])
 		    axl_area[l] += xarea;
 		    if(interp_order == 2) {
 		      axl_clon[l] += poly_ctrlon ( x_out, y_out, n_out, xa_avg)*lnd_frac;
+		      axl_clon_lnd[l] += poly_ctrlon ( x_out, y_out, n_out, axl_xl_avg[l])*lnd_frac;
 		      axl_clat[l] += poly_ctrlat ( x_out, y_out, n_out)*lnd_frac;
 		    }
 		  }
@@ -1734,6 +1739,7 @@ int main (int argc, char *argv[])
 	    atmxlnd_jl  [na][nl][naxl[na][nl]] = axl_j[l];
 	    if(interp_order == 2) {
 	      atmxlnd_clon[na][nl][naxl[na][nl]] = axl_clon[l];
+	      atmxlnd_dil [na][nl][naxl[na][nl]] = axl_clon_lnd[l];
 	      atmxlnd_clat[na][nl][naxl[na][nl]] = axl_clat[l];
 	    }
 	    ++(naxl[na][nl]);
@@ -1884,7 +1890,7 @@ int main (int argc, char *argv[])
 	      nxgrid = naxl[na][nl];
 	      mpp_sum_int(1, &nxgrid);
 	      if(nxgrid > 0) {
-		double *g_area, *g_clon, *g_clat;
+		double *g_area, *g_clon, *g_clat, *g_clon_lnd;
 		int    *g_ia,   *g_ja,   *g_il, *g_jl;
 		int    ii;
 		g_ia = (int    *)malloc(nxgrid*sizeof(int   ));
@@ -1894,12 +1900,14 @@ int main (int argc, char *argv[])
 		g_area = (double *)malloc(nxgrid*sizeof(double));
 		g_clon = (double *)malloc(nxgrid*sizeof(double));
 		g_clat = (double *)malloc(nxgrid*sizeof(double));
+		g_clon_lnd = (double *)malloc(nxgrid*sizeof(double));
 		mpp_gather_field_int   (naxl[na][nl], atmxlnd_ia[na][nl], g_ia);
 		mpp_gather_field_int   (naxl[na][nl], atmxlnd_ja[na][nl], g_ja);
 		mpp_gather_field_int   (naxl[na][nl], atmxlnd_il[na][nl], g_il);
 		mpp_gather_field_int   (naxl[na][nl], atmxlnd_jl[na][nl], g_jl);
 		mpp_gather_field_double(naxl[na][nl], atmxlnd_area[na][nl], g_area);
 		mpp_gather_field_double(naxl[na][nl], atmxlnd_clon[na][nl], g_clon);
+		mpp_gather_field_double(naxl[na][nl], atmxlnd_dil[na][nl], g_clon_lnd);
 		mpp_gather_field_double(naxl[na][nl], atmxlnd_clat[na][nl], g_clat);
 		for(i=0; i<nxgrid; i++) {
 		  ii = g_ja[i]*nxa[na]+g_ia[i];
@@ -1908,7 +1916,7 @@ int main (int argc, char *argv[])
 		  a_clat[ii] += g_clat[i];
 		  ii = g_jl[i]*nxl[nl]+g_il[i];
 		  l_area[nl][ii] += g_area[i];
-		  l_clon[nl][ii] += g_clon[i];
+		  l_clon[nl][ii] += g_clon_lnd[i];
 		  l_clat[nl][ii] += g_clat[i];
 		}
 		free(g_ia);
@@ -1918,6 +1926,7 @@ int main (int argc, char *argv[])
 		free(g_area);
 		free(g_clon);
 		free(g_clat);
+		free(g_clon_lnd);
 	      }
 	    }
 	  }
@@ -1929,7 +1938,7 @@ int main (int argc, char *argv[])
 	      nxgrid = naxo[na][no];
 	      mpp_sum_int(1, &nxgrid);
 	      if(nxgrid > 0) {
-		double *g_area, *g_clon, *g_clat;
+		double *g_area, *g_clon, *g_clat, *g_clon_ocn;
 		int    *g_ia,   *g_ja,   *g_io, *g_jo;
 		int    ii;
 		g_ia = (int    *)malloc(nxgrid*sizeof(int   ));
@@ -1939,12 +1948,14 @@ int main (int argc, char *argv[])
 		g_area = (double *)malloc(nxgrid*sizeof(double));
 		g_clon = (double *)malloc(nxgrid*sizeof(double));
 		g_clat = (double *)malloc(nxgrid*sizeof(double));
+		g_clon_ocn = (double *)malloc(nxgrid*sizeof(double));
 		mpp_gather_field_int   (naxo[na][no], atmxocn_ia[na][no], g_ia);
 		mpp_gather_field_int   (naxo[na][no], atmxocn_ja[na][no], g_ja);
 		mpp_gather_field_int   (naxo[na][no], atmxocn_io[na][no], g_io);
 		mpp_gather_field_int   (naxo[na][no], atmxocn_jo[na][no], g_jo);
 		mpp_gather_field_double(naxo[na][no], atmxocn_area[na][no], g_area);
 		mpp_gather_field_double(naxo[na][no], atmxocn_clon[na][no], g_clon);
+		mpp_gather_field_double(naxo[na][no], atmxocn_dio[na][no], g_clon_ocn);
 		mpp_gather_field_double(naxo[na][no], atmxocn_clat[na][no], g_clat);
 		for(i=0; i<nxgrid; i++) {
 		  ii = g_ja[i]*nxa[na]+g_ia[i];
@@ -1953,7 +1964,7 @@ int main (int argc, char *argv[])
 		  a_clat[ii] += g_clat[i];
 		  ii = g_jo[i]*nxo[no]+g_io[i];
 		  o_area[no][ii] += g_area[i];
-		  o_clon[no][ii] += g_clon[i];
+		  o_clon[no][ii] += g_clon_ocn[i];
 		  o_clat[no][ii] += g_clat[i];
 		}
 		free(g_ia);
@@ -1963,6 +1974,7 @@ int main (int argc, char *argv[])
 		free(g_area);
 		free(g_clon);
 		free(g_clat);
+		free(g_clon_ocn);
 	      }
 	    }
 	  }
@@ -2006,7 +2018,7 @@ int main (int argc, char *argv[])
 	  for(na=0; na<ntile_atm; na++) {
 	    for(i=0; i<naxl[na][nl]; i++) {
 	      ll = atmxlnd_jl[na][nl][i]*nxl[nl] + atmxlnd_il[na][nl][i];
-	      atmxlnd_dil[na][nl][i] = atmxlnd_clon[na][nl][i]/atmxlnd_area[na][nl][i] - l_clon[nl][ll];
+	      atmxlnd_dil[na][nl][i] = atmxlnd_dil[na][nl][i]/atmxlnd_area[na][nl][i] - l_clon[nl][ll];
 	      atmxlnd_djl[na][nl][i] = atmxlnd_clat[na][nl][i]/atmxlnd_area[na][nl][i] - l_clat[nl][ll];
 	    }
 	  }
@@ -2025,7 +2037,7 @@ int main (int argc, char *argv[])
 	  for(na=0; na<ntile_atm; na++) {
 	    for(i=0; i<naxo[na][no]; i++) {
 	      lo = atmxocn_jo[na][no][i]*nxo[no] + atmxocn_io[na][no][i];
-	      atmxocn_dio[na][no][i] = atmxocn_clon[na][no][i]/atmxocn_area[na][no][i] - o_clon[no][lo];
+	      atmxocn_dio[na][no][i] = atmxocn_dio[na][no][i]/atmxocn_area[na][no][i] - o_clon[no][lo];
 	      atmxocn_djo[na][no][i] = atmxocn_clat[na][no][i]/atmxocn_area[na][no][i] - o_clat[no][lo];
 	    }
 	  }
@@ -2702,6 +2714,7 @@ int main (int argc, char *argv[])
 		lndxocn_jl[nl][no][nlxo[nl][no]]   = jl;
 		if(interp_order == 2) {
 		  lndxocn_clon[nl][no][nlxo[nl][no]] = poly_ctrlon ( x_out, y_out, n_out, xl_avg)*ocn_frac;
+		  lndxocn_dio[nl][no][nlxo[nl][no]] = poly_ctrlon ( x_out, y_out, n_out, avgval_double(no_in, xo))*ocn_frac;
 		  lndxocn_clat[nl][no][nlxo[nl][no]] = poly_ctrlat ( x_out, y_out, n_out )*ocn_frac;
 		}
 		++(nlxo[nl][no]);
@@ -2752,7 +2765,7 @@ int main (int argc, char *argv[])
 	  nxgrid = nlxo[nl][no];
 	  mpp_sum_int(1, &nxgrid);
 	  if(nxgrid > 0) {
-	    double *g_area, *g_clon, *g_clat;
+	    double *g_area, *g_clon, *g_clat, *g_clon_ocn;
 	    int    *g_il,   *g_jl,   *g_io, *g_jo;
 	    int    ii;
 	    g_il = (int    *)malloc(nxgrid*sizeof(int   ));
@@ -2762,12 +2775,14 @@ int main (int argc, char *argv[])
 	    g_area = (double *)malloc(nxgrid*sizeof(double));
 	    g_clon = (double *)malloc(nxgrid*sizeof(double));
 	    g_clat = (double *)malloc(nxgrid*sizeof(double));
+	    g_clon_ocn = (double *)malloc(nxgrid*sizeof(double));
 	    mpp_gather_field_int   (nlxo[nl][no], lndxocn_il[nl][no], g_il);
 	    mpp_gather_field_int   (nlxo[nl][no], lndxocn_jl[nl][no], g_jl);
 	    mpp_gather_field_int   (nlxo[nl][no], lndxocn_io[nl][no], g_io);
 	    mpp_gather_field_int   (nlxo[nl][no], lndxocn_jo[nl][no], g_jo);
 	    mpp_gather_field_double(nlxo[nl][no], lndxocn_area[nl][no], g_area);
 	    mpp_gather_field_double(nlxo[nl][no], lndxocn_clon[nl][no], g_clon);
+	    mpp_gather_field_double(nlxo[nl][no], lndxocn_dio[nl][no], g_clon_ocn);
 	    mpp_gather_field_double(nlxo[nl][no], lndxocn_clat[nl][no], g_clat);
 	    for(i=0; i<nxgrid; i++) {
 	      ii = g_jl[i]*nxl[nl]+g_il[i];
@@ -2776,7 +2791,7 @@ int main (int argc, char *argv[])
 	      l_clat[ii] += g_clat[i];
 	      ii = g_jo[i]*nxo[no]+g_io[i];
 	      o_area[no][ii] += g_area[i];
-	      o_clon[no][ii] += g_clon[i];
+	      o_clon[no][ii] += g_clon_ocn[i];
 	      o_clat[no][ii] += g_clat[i];
 	    }
 	    free(g_il);
@@ -2786,6 +2801,7 @@ int main (int argc, char *argv[])
 	    free(g_area);
 	    free(g_clon);
 	    free(g_clat);
+	    free(g_clon_ocn);
 	  }
 	}
 	for(ll=0; ll<nxl[nl]*nyl[nl]; ll++) {
@@ -2819,7 +2835,7 @@ int main (int argc, char *argv[])
 	for(nl=0; nl<ntile_lnd; nl++) {
 	  for(i=0; i<nlxo[nl][no]; i++) {
 	    lo = lndxocn_jo[nl][no][i]*nxo[no] + lndxocn_io[nl][no][i];
-	    lndxocn_dio[nl][no][i] = lndxocn_clon[nl][no][i]/lndxocn_area[nl][no][i] - o_clon[no][lo];
+	    lndxocn_dio[nl][no][i] = lndxocn_dio[nl][no][i]/lndxocn_area[nl][no][i] - o_clon[no][lo];
 	    lndxocn_djo[nl][no][i] = lndxocn_clat[nl][no][i]/lndxocn_area[nl][no][i] - o_clat[no][lo];
 	  }
 	}
@@ -3234,6 +3250,7 @@ int main (int argc, char *argv[])
 		  wavxocn_jw[nw][no][nwxo[nw][no]]   = jw;
 		  if(interp_order == 2) {
 		    wavxocn_clon[nw][no][nwxo[nw][no]] = poly_ctrlon ( x_out, y_out, n_out, xw_avg)*ocn_frac;
+		    wavxocn_dio[nw][no][nwxo[nw][no]] = poly_ctrlon ( x_out, y_out, n_out, avgval_double(no_in, xo))*ocn_frac;
 		    wavxocn_clat[nw][no][nwxo[nw][no]] = poly_ctrlat ( x_out, y_out, n_out )*ocn_frac;
 		  }
 		  ++(nwxo[nw][no]);
@@ -3327,7 +3344,7 @@ int main (int argc, char *argv[])
 	    nxgrid = nwxo[nw][no];
 	    mpp_sum_int(1, &nxgrid);
 	    if(nxgrid > 0) {
-	      double *g_area, *g_clon, *g_clat;
+	      double *g_area, *g_clon, *g_clat, *g_clon_ocn;
 	      int    *g_iw,   *g_jw,   *g_io, *g_jo;
 	      int    ii;
 	      g_iw = (int    *)malloc(nxgrid*sizeof(int   ));
@@ -3337,12 +3354,14 @@ int main (int argc, char *argv[])
 	      g_area = (double *)malloc(nxgrid*sizeof(double));
 	      g_clon = (double *)malloc(nxgrid*sizeof(double));
 	      g_clat = (double *)malloc(nxgrid*sizeof(double));
+	      g_clon_ocn = (double *)malloc(nxgrid*sizeof(double));
 	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_iw[nw][no], g_iw);
 	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_jw[nw][no], g_jw);
 	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_io[nw][no], g_io);
 	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_jo[nw][no], g_jo);
 	      mpp_gather_field_double(nwxo[nw][no], wavxocn_area[nw][no], g_area);
 	      mpp_gather_field_double(nwxo[nw][no], wavxocn_clon[nw][no], g_clon);
+	      mpp_gather_field_double(nwxo[nw][no], wavxocn_dio[nw][no], g_clon_ocn);
 	      mpp_gather_field_double(nwxo[nw][no], wavxocn_clat[nw][no], g_clat);
 	      for(i=0; i<nxgrid; i++) {
 		ii = g_jw[i]*nxw[nw]+g_iw[i];
@@ -3351,7 +3370,7 @@ int main (int argc, char *argv[])
 		w_clat[ii] += g_clat[i];
 		ii = g_jo[i]*nxo[no]+g_io[i];
 		o_area[no][ii] += g_area[i];
-		o_clon[no][ii] += g_clon[i];
+		o_clon[no][ii] += g_clon_ocn[i];
 		o_clat[no][ii] += g_clat[i];
 	      }
 	      free(g_iw);
@@ -3361,6 +3380,7 @@ int main (int argc, char *argv[])
 	      free(g_area);
 	      free(g_clon);
 	      free(g_clat);
+	      free(g_clon_ocn);
 	    }
 	  }
 
@@ -3395,7 +3415,7 @@ int main (int argc, char *argv[])
 	  for(nw=0; nw<ntile_wav; nw++) {
 	    for(i=0; i<nwxo[nw][no]; i++) {
 	      lo = wavxocn_jo[nw][no][i]*nxo[no] + wavxocn_io[nw][no][i];
-	      wavxocn_dio[nw][no][i] = wavxocn_clon[nw][no][i]/wavxocn_area[nw][no][i] - o_clon[no][lo];
+	      wavxocn_dio[nw][no][i] = wavxocn_dio[nw][no][i]/wavxocn_area[nw][no][i] - o_clon[no][lo];
 	      wavxocn_djo[nw][no][i] = wavxocn_clat[nw][no][i]/wavxocn_area[nw][no][i] - o_clat[no][lo];
 	    }
 	  }
-- 
2.43.0


From 0ebeb509c311e981dc86c2ee2dcc822386305e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:23 +0000
Subject: [PATCH 060/140] fix: make_coupler_mosaic: wave grid with
 --interp_order 1

The wave area was summed by ocean indices into an array that was never
allocated.
---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index f8c0333..7756e6a 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -3275,7 +3275,7 @@ int main (int argc, char *argv[])
     if(verbose) printf("on pe %d, calculating waveXocean used %f seconds.\n", mpp_pe(), difftime(time_end, time_start));
     /* calculate the centroid of model grid, as well as land_mask and ocean_mask */
     {
-      double **w_area, **w_area2;
+      double **w_area;
       int    nw, lw;
       w_area = (double **)malloc(ntile_wav*sizeof(double *));
       for(nw =0; nw<ntile_wav; nw++) {
@@ -3299,12 +3299,12 @@ int main (int argc, char *argv[])
 	      g_iw = (int    *)malloc(nxgrid*sizeof(int   ));
 	      g_jw = (int    *)malloc(nxgrid*sizeof(int   ));
 	      g_area = (double *)malloc(nxgrid*sizeof(double));
-	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_io[nw][no], g_iw);
-	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_jo[nw][no], g_jw);
+	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_iw[nw][no], g_iw);
+	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_jw[nw][no], g_jw);
 	      mpp_gather_field_double(nwxo[nw][no], wavxocn_area[nw][no], g_area);
 	      for(i=0; i<nxgrid; i++) {
 		ii = g_jw[i]*nxw[nw]+g_iw[i];
-		w_area2[nw][ii] += g_area[i];
+		w_area[nw][ii] += g_area[i];
 	      }
 	      free(g_iw);
 	      free(g_jw);
-- 
2.43.0


From c95df0e2042a59f4ada249bb56c00e1a5b1424c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:23 +0000
Subject: [PATCH 061/140] fix: make_coupler_mosaic: area of the wave exchange
 cells with the great circle algorithm

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 7756e6a..52407ab 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -3239,7 +3239,10 @@ int main (int argc, char *argv[])
 		n_out = clip_2dx2d( xw, yw, nw_in, xo, yo, no_in, x_out, y_out);
 	      }
 	      if (  n_out > 0) {
-		xarea = poly_area(x_out, y_out, n_out )*ocn_frac;
+		if(clip_method == GREAT_CIRCLE_CLIP)
+		  xarea=great_circle_area ( n_out, x_out, y_out, z_out)*ocn_frac;
+		else
+		  xarea = poly_area(x_out, y_out, n_out )*ocn_frac;
 		min_area = min(area_ocn[no][jo*nxo[no]+io], area_wav[nw][lw]);
 		if(xarea/min_area > area_ratio_thresh) {
 
-- 
2.43.0


From d137679c8a57bca03d65549298f156bed5a46b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:23 +0000
Subject: [PATCH 062/140] fix: make_coupler_mosaic: land mosaic larger than the
 atmosphere mosaic

The atmosphere areas were read past their end, or past the last tile.
---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 52407ab..ad1809b 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -775,7 +775,7 @@ int main (int argc, char *argv[])
     lnd_great_circle_algorithm = atm_great_circle_algorithm;
   }
   int n;
-  for(n=0; n<ntile_lnd; n++) {
+  for(n=0; n<ntile_lnd && n<ntile_atm; n++) {
     if(mpp_pe()==mpp_root_pe() && verbose) printf("Number of ATM and LND cells for tile %d are %d, %d.\n",n+1,nxa[n]*nya[n],nxl[n]*nyl[n]);
     if(nxa[n]*nya[n] != nxl[n]*nyl[n]) printf("Warning: Number of ATM and LND cells for tile %d are not equal %d, %d.\n",n+1,nxa[n]*nya[n],nxl[n]*nyl[n]);
   }
@@ -2126,7 +2126,7 @@ int main (int argc, char *argv[])
 	    //mask[i] = min(l_area[nl][i]/area_lnd[nl][i],1.0);
 	    l_a[i] = l_area[nl][i];
 	    a_l[i] = area_lnd[nl][i];
-	    a_a[i] = area_atm[nl][i];
+	    a_a[i] = (nl < ntile_atm && i < nxa[nl]*nya[nl]) ? area_atm[nl][i] : 0;
 	  }
 	  if(ntile_lnd > 1)
 	    sprintf(lnd_mask_file, "land_mask_tile%d.nc", nl+1);
-- 
2.43.0


From 67cfe88e040941d4ae72027f57af5e937b0c0f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:23 +0000
Subject: [PATCH 063/140] fix: make_coupler_mosaic: ocean rows that span all
 the land or wave latitudes

No exchange cell was made between land (wave) and ocean when no ocean latitude
lies strictly inside the latitudes of the land (wave) cells of a processor.
---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index ad1809b..9001aea 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -2618,10 +2618,8 @@ int main (int argc, char *argv[])
 	  js_ocn[no] = nyo[no]; je_ocn[no] = -1;
 	  for(jo = 0; jo <= nyo[no]; jo ++) for(io = 0; io <= nxo[no]; io++) {
 	    yy = yocn[no][jo    *(nxo[no]+1) + io];
-	    if( yy > yl_min && yy < yl_max ) {
-	      if(jo > je_ocn[no] ) je_ocn[no] = jo;
-	      if(jo < js_ocn[no] ) js_ocn[no] = jo;
-	    }
+	    if( yy > yl_min && jo < js_ocn[no] ) js_ocn[no] = jo;
+	    if( yy < yl_max && jo > je_ocn[no] ) je_ocn[no] = jo;
 	  }
 	  js_ocn[no] = max(0, js_ocn[no]-1);
 	  je_ocn[no] = min(nyo[no]-1, je_ocn[no]+1);
@@ -3147,10 +3145,8 @@ int main (int argc, char *argv[])
 	  js_ocn[no] = nyo[no]; je_ocn[no] = -1;
 	  for(jo = 0; jo <= nyo[no]; jo ++) for(io = 0; io <= nxo[no]; io++) {
 	    yy = yocn[no][jo    *(nxo[no]+1) + io];
-	    if( yy > yw_min && yy < yw_max ) {
-	      if(jo > je_ocn[no] ) je_ocn[no] = jo;
-	      if(jo < js_ocn[no] ) js_ocn[no] = jo;
-	    }
+	    if( yy > yw_min && jo < js_ocn[no] ) js_ocn[no] = jo;
+	    if( yy < yw_max && jo > je_ocn[no] ) je_ocn[no] = jo;
 	  }
 	  js_ocn[no] = max(0, js_ocn[no]-1);
 	  je_ocn[no] = min(nyo[no]-1, je_ocn[no]+1);
-- 
2.43.0


From 239a3896a8cb60ca868f87ab76f8f67a20aa76b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:23 +0000
Subject: [PATCH 064/140] fix: make_coupler_mosaic: great circle algorithm with
 more ocean tiles than land tiles

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 9001aea..f3650e7 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -894,8 +894,8 @@ int main (int argc, char *argv[])
     }
 
     if(clip_method == GREAT_CIRCLE_CLIP) {
-      cart_xocn = (double **) malloc( ntile_lnd*sizeof(double *));
-      cart_yocn = (double **) malloc( ntile_lnd*sizeof(double *));
+      cart_xocn = (double **) malloc( ntile_ocn*sizeof(double *));
+      cart_yocn = (double **) malloc( ntile_ocn*sizeof(double *));
       cart_zocn =  (double **) malloc( ntile_ocn*sizeof(double *));
       for(n=0; n<ntile_ocn; n++) {
 	cart_xocn[n]     = (double *)malloc((nxo[n]+1)*(nyo[n]+1)*sizeof(double));
-- 
2.43.0


From 62c46da4e09b613c120968ee4994b16e12b0dfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:05 +0000
Subject: [PATCH 065/140] fix: make_coupler_mosaic: land over an ocean cell
 with a corner at a pole

When the land grid is not the atmosphere grid, the ocean cell was put near each
atmosphere-land cell again, from the first four of the vertices left by the
last time: more than four when a corner is at a pole.
---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index f3650e7..726c828 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -1684,7 +1684,12 @@ int main (int argc, char *argv[])
             /*Apply a longitude fix to ocean cell xo based on the center of the atmxlnd cell
             Otherwise, when lnd and atm grids are not the same some exchange grids may be missed, particularly around the Prime Meridian lon=0 
             */
-            if(!lnd_same_as_atm){
+            if(!lnd_same_as_atm && clip_method != GREAT_CIRCLE_CLIP){
+              /* from the four corners again: fix_lon may have added vertices at a pole */
+              xo[0] = xocn[no][n0]; yo[0] = yocn[no][n0];
+              xo[1] = xocn[no][n1]; yo[1] = yocn[no][n1];
+              xo[2] = xocn[no][n2]; yo[2] = yocn[no][n2];
+              xo[3] = xocn[no][n3]; yo[3] = yocn[no][n3];
               no_in = fix_lon (xo, yo, 4, atmxlnd_x[l][0]); //Shifts xo so the center to be within atmxlnd_x[l][0]-pi to atmxlnd_x[l][0]+pi, 
               xo_min = minval_double (no_in, xo);
               xo_max = maxval_double (no_in, xo);		
-- 
2.43.0


From 024e429fb7bf6e544027dd1976496cfc1c77b724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:05 +0000
Subject: [PATCH 066/140] fix: make_coupler_mosaic: room in the history for
 long command lines

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 726c828..13915a7 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -368,7 +368,7 @@ int main (int argc, char *argv[])
   unsigned int check = 0;
   unsigned int verbose = 0;
   int errflg = (argc == 1);
-  char history[512];
+  char history[8*STRING];
   int nfile_lxo=0, nfile_axo=0, nfile_axl=0;
   int nfile_wxo=0;
   char lxo_file[MAXXGRIDFILE][STRING];
-- 
2.43.0


From 363fbff936614cf17c5d30ea0b83b14db02b9bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:05 +0000
Subject: [PATCH 067/140] fix: make_coupler_mosaic: --area_ratio_thresh does
 not turn on --check

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 13915a7..fb1eaca 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -464,6 +464,7 @@ int main (int argc, char *argv[])
       break;
     case 'r':
       area_ratio_thresh = atof(optarg);
+      break;
     case 'n':
       check = 1;
       break;
-- 
2.43.0


From 627199d568c6039f4e1b3a8b9ca420f8099a883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:42 +0000
Subject: [PATCH 068/140] fix: make_topog has room for long names and command
 lines

---
 src/make-topog/make_topog.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/make-topog/make_topog.c b/src/make-topog/make_topog.c
index 522fe6b..991b3c8 100644
--- a/src/make-topog/make_topog.c
+++ b/src/make-topog/make_topog.c
@@ -293,7 +293,7 @@ char tagname[] = "$Name: fre-nctools-bronx-10 $";
 int main(int argc, char* argv[])
 {
   char   *mosaic_file = NULL, *topog_file = NULL, *topog_field = NULL;
-  char   topog_type[32] = "realistic", output_file[32] = "topog.nc";
+  char   *topog_type = "realistic", *output_file = "topog.nc";
   int    num_filter_pass = 1;
   int    x_refine = 2, y_refine = 2;
   double bottom_depth = 5000, min_depth = 10, scale_factor = 1;
@@ -396,7 +396,7 @@ int main(int argc, char* argv[])
       mosaic_file = optarg;
       break;
     case 'b':
-      strcpy(topog_type, optarg);
+      topog_type = optarg;
       break;
     case 'X':
       x_refine = atoi(optarg);
@@ -465,7 +465,7 @@ int main(int argc, char* argv[])
       smooth_topo_allow_deepening = 1;
       break;
     case 'o':
-      strcpy(output_file,optarg);
+      output_file = optarg;
       break;
     case 'A':
       jwest_south = atoi(optarg);
@@ -661,7 +661,7 @@ int main(int argc, char* argv[])
     double *depth=NULL, *x=NULL, *y=NULL;
     int *num_levels=NULL;
     char **tile_files=NULL;
-    char history[512], dimx_name[128], dimy_name[128], depth_name[128], level_name[128];
+    char history[8*STRING], dimx_name[128], dimy_name[128], depth_name[128], level_name[128];
     char gridfile[256], griddir[256];
 
     /* history will be write out as global attribute
-- 
2.43.0


From 6599ddb373d2cacec3cf004b03b3510d59acc719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:42 +0000
Subject: [PATCH 069/140] fix: make_topog accepts great circle mosaics of
 several tiles

---
 src/make-topog/make_topog.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/make-topog/make_topog.c b/src/make-topog/make_topog.c
index 991b3c8..c108468 100644
--- a/src/make-topog/make_topog.c
+++ b/src/make-topog/make_topog.c
@@ -655,6 +655,7 @@ int main(int argc, char* argv[])
   {
     int m_fid, g_fid, vid;
     int ntiles, fid, dim_ntiles, n, dims[2];
+    int use_great_circle_algorithm_prev=0;
     size_t start[4], nread[4], nwrite[4];
     int *nx=NULL, *ny=NULL, *nxp=NULL, *nyp=NULL;
     int *id_depth=NULL, *id_level=NULL;
@@ -694,8 +695,6 @@ int main(int argc, char* argv[])
     nxp = (int *)malloc(ntiles*sizeof(int));
     nyp = (int *)malloc(ntiles*sizeof(int));
     for( n = 0; n < ntiles; n++ ) {
-      int use_great_circle_algorithm_prev=0;
-
       tile_files[n] = (char *)malloc(STRING*sizeof(double));
       start[0] = n;
       start[1] = 0;
-- 
2.43.0


From 70eaf4d43cfd85b79698c86b6c014061fbf8043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:42 +0000
Subject: [PATCH 070/140] fix: make_topog computes analytic topography in
 parallel within its arrays

---
 src/make-topog/make_topog.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/make-topog/make_topog.c b/src/make-topog/make_topog.c
index c108468..7d8dae8 100644
--- a/src/make-topog/make_topog.c
+++ b/src/make-topog/make_topog.c
@@ -763,6 +763,10 @@ int main(int argc, char* argv[])
       mpp_define_layout( nx[n], ny[n], mpp_npes(), layout);
       mpp_define_domain2d( nx[n], ny[n], layout, 0, 0, &domain);
       mpp_get_compute_domain2d( domain, &isc, &iec, &jsc, &jec);
+      if(my_topog_type != REALISTIC) { /* these depend on the whole tile, every processor computes all of it */
+	isc = 0; iec = nx[n]-1;
+	jsc = 0; jec = ny[n]-1;
+      }
       nxc = iec - isc + 1;
       nyc = jec - jsc + 1;
 
@@ -835,7 +839,10 @@ int main(int argc, char* argv[])
 	break;
       }
       gdata = (double *)malloc(nx[n]*ny[n]*sizeof(double));
-      mpp_global_field_double(domain, nxc, nyc, depth, gdata);
+      if(my_topog_type == REALISTIC)
+	mpp_global_field_double(domain, nxc, nyc, depth, gdata);
+      else
+	for(i=0; i<nx[n]*ny[n]; i++) gdata[i] = depth[i];
       mpp_put_var_value(fid, id_depth[n], gdata);
       if(vgrid_file) {
 	double *tmp_double=NULL;
-- 
2.43.0


From 5bc4af7e84991c82185e58248f238b19bc0ae792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:42 +0000
Subject: [PATCH 071/140] fix: make_topog idealized topography looks for
 longitudes in all columns

---
 src/make-topog/topog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 4e1fd2f..b431a06 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -320,7 +320,7 @@ void set_depth(int nx, int ny, const double *xbnd, const double *ybnd, double al
   ie1 = max(i1,i2);
 
   i1  = nearest_index(slon2, xbnd, nx );
-  i2  = nearest_index(elon2, xbnd, ny );
+  i2  = nearest_index(elon2, xbnd, nx );
   is2 = min(i1,i2);
   ie2 = max(i1,i2);
 
-- 
2.43.0


From dd3311b8db46ed143e3f22cf7d2f125d8e3e9691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:42 +0000
Subject: [PATCH 072/140] fix: make_topog gaussian bump takes the extent of all
 cells

---
 src/make-topog/topog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index b431a06..3df0444 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -126,8 +126,8 @@ void create_gaussian_topog(int nx, int ny, const double *x, const double *y, dou
   xe = xw;
   yn = ys;
 
-  for(j=1;j<ny;j++){
-    for(i=1;i<nx;i++){
+  for(j=0;j<ny;j++){
+    for(i=0;i<nx;i++){
       xw = min(xt[j*nx+i],xw); xe = max(xt[j*nx+i],xe);
       ys = min(yt[j*nx+i],ys); yn = max(yt[j*nx+i],yn);
     }
-- 
2.43.0


From 2b5472272a50b6b2def5f4f516c8b8979e0a119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:42 +0000
Subject: [PATCH 073/140] fix: make_topog reads the missing value of integer
 data

---
 src/make-topog/topog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 3df0444..7e496fe 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -406,7 +406,7 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   xc_src    = (double *)malloc(nxp_src*sizeof(double));
   yc_src    = (double *)malloc(nyp_src*sizeof(double));
 
-  mpp_get_var_att(fid, vid, "missing_value", &missing);
+  mpp_get_var_att_double(fid, vid, "missing_value", &missing);
   vid = mpp_get_varid(fid, xname);
   mpp_get_var_value(fid, vid, xt_src);
   vid = mpp_get_varid(fid, yname);
-- 
2.43.0


From ecb4a6efa87ed934bdc9a48a5ef8a2419cd655cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:42 +0000
Subject: [PATCH 074/140] fix: make_topog --verbose without a vertical grid

---
 src/make-topog/topog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 7e496fe..1605ba9 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -520,7 +520,7 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
    }
   
   if (filter_topog) filter_topo(nx_dst, ny_dst, num_filter_pass, smooth_topo_allow_deepening, depth, domain);
-  if(debug) show_deepest(nk, zw, depth, domain);
+  if(debug && vgrid_file) show_deepest(nk, zw, depth, domain);
   
   /* make first row of ocean model all land points for ice model */
 
-- 
2.43.0


From bfb8d667e587f394e5ca3da3484793c956f5a538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:42 +0000
Subject: [PATCH 075/140] fix: make_topog --fill_first_row fills only the first
 row in parallel

---
 src/make-topog/topog.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 1605ba9..ac3678b 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -371,6 +371,7 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   int    nzv, nk, k;
   double *zeta=NULL, *zw=NULL;
   int    jstart, jend, jj;
+  int    isc, iec, jsc, jec;
   int    fid, vid;
   int    ny_now;
   size_t start[4], nread[4];
@@ -524,7 +525,8 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   
   /* make first row of ocean model all land points for ice model */
 
-  if(fill_first_row) {
+  mpp_get_compute_domain2d(domain, &isc, &iec, &jsc, &jec);
+  if(fill_first_row && jsc == 0) {
     for(i=0;i<nx_dst;i++) {
       depth[i] = 0.0;
     }
-- 
2.43.0


From f050c20e14a745e82c8e7c30728e01fa9c120377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:14 +0000
Subject: [PATCH 076/140] fix: make_topog --on_grid takes every row and, in
 parallel, the cells of the processor

---
 src/make-topog/topog.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index ac3678b..058f4f2 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -371,7 +371,8 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   int    nzv, nk, k;
   double *zeta=NULL, *zw=NULL;
   int    jstart, jend, jj;
-  int    isc, iec, jsc, jec;
+  int    isc, iec, jsc, jec, ni, nj;
+  int    istart, nx_now;
   int    fid, vid;
   int    ny_now;
   size_t start[4], nread[4];
@@ -448,11 +449,22 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   jstart = max(0, jstart-1);
   jend   = min(ny_src-1, jend+1);
   ny_now = jend-jstart+1;
+  istart = 0;
+  nx_now = nx_src;
+  mpp_get_compute_domain2d(domain, &isc, &iec, &jsc, &jec);
+  if(on_grid) { /* the data of the cells of this processor */
+    mpp_get_global_domain2d(domain, &ni, &nj);
+    if(nx_src != ni || ny_src != nj) mpp_error("topog.c: with on_grid the size of the topography should be that of the model grid");
+    jstart = jsc;
+    ny_now = ny_dst;
+    istart = isc;
+    nx_now = nx_dst;
+  }
 
   x_src    = (double *)malloc(nxp_src*(ny_now+1)*sizeof(double));
   y_src    = (double *)malloc(nxp_src*(ny_now+1)*sizeof(double));
-  depth_src = (double *)malloc(nx_src*ny_now*sizeof(double));
-  mask_src = (double *)malloc(nx_src*ny_now*sizeof(double));
+  depth_src = (double *)malloc(nx_now*ny_now*sizeof(double));
+  mask_src = (double *)malloc(nx_now*ny_now*sizeof(double));
 
   for(j=0; j<=ny_now; j++) {
      jj = j+jstart;
@@ -466,8 +478,9 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
      nread[i] = 1;
   }
   start[0] = jstart;
+  start[1] = istart;
   nread[0] = ny_now;
-  nread[1] = nx_src;
+  nread[1] = nx_now;
   vid = mpp_get_varid(fid, topog_field);
   {
      nc_type vartype;
@@ -478,9 +491,9 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
         mpp_get_var_value_block(fid, vid, start, nread, depth_src);
         break;
      case NC_INT:
-        depth_int = (int *)malloc(nx_src*ny_now*sizeof(int));
+        depth_int = (int *)malloc(nx_now*ny_now*sizeof(int));
         mpp_get_var_value_block(fid, vid, start, nread, depth_int);
-        for(i=0; i<nx_src*ny_now; i++) depth_src[i] = depth_int[i];
+        for(i=0; i<nx_now*ny_now; i++) depth_src[i] = depth_int[i];
         free(depth_int);
         break;
      default:
@@ -490,7 +503,7 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
 
   mpp_close(fid);
 
-  for(i=0; i<nx_src*ny_now; i++) {
+  for(i=0; i<nx_now*ny_now; i++) {
     if(depth_src[i] == missing)
       mask_src[i] = 0.0;
     else {
@@ -503,7 +516,7 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   }
   if(on_grid) {
      printf("We do no topography interpolation!\n");
-     for(i=0; i<nx_src*ny_now; i++) {
+     for(i=0; i<nx_now*ny_now; i++) {
         if(depth_src[i] == missing)
           depth[i] = 0.0;
         else
@@ -525,7 +538,6 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   
   /* make first row of ocean model all land points for ice model */
 
-  mpp_get_compute_domain2d(domain, &isc, &iec, &jsc, &jec);
   if(fill_first_row && jsc == 0) {
     for(i=0;i<nx_dst;i++) {
       depth[i] = 0.0;
-- 
2.43.0


From 4f8a76c66ae93f6b5d1f7553cfa214c03cfa39e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:41 +0000
Subject: [PATCH 077/140] fix: make_topog takes source rows that are wider than
 the domain

---
 src/make-topog/topog.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 058f4f2..50361f9 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -438,16 +438,14 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   /* doing the conservative interpolation */
   y_min = minval_double((nx_dst+1)*(ny_dst+1), y_out);
   y_max = maxval_double((nx_dst+1)*(ny_dst+1), y_out);
-  jstart = ny_src; jend = -1;
-  for(j=0; j<=ny_src; j++){
+  /* source rows from the one that holds y_min to the one that holds y_max */
+  jstart = 0; jend = 0;
+  for(j=1; j<ny_src; j++){
     yy = yc_src[j];
-    if( yy > y_min && yy < y_max) {
-      if(j > jend  ) jend   = j;
-      if(j < jstart) jstart = j;
-    }
+    if( yy <= y_min) jstart = j;
+    if( yy <  y_max) jend   = j;
   }
-  jstart = max(0, jstart-1);
-  jend   = min(ny_src-1, jend+1);
+  jend   = max(jstart, jend);
   ny_now = jend-jstart+1;
   istart = 0;
   nx_now = nx_src;
-- 
2.43.0


From 954d1a3d89b0c5ea5eb927821eb3c4ab0b4efd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:09 +0000
Subject: [PATCH 078/140] fix: make_topog takes all overlapping source rows
 with the great circle algorithm

---
 src/make-topog/topog.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 50361f9..1680a5d 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -446,6 +446,10 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
     if( yy <  y_max) jend   = j;
   }
   jend   = max(jstart, jend);
+  if(use_great_circle_algorithm) { /* great circles leave the latitudes of their ends */
+    jstart = 0;
+    jend   = ny_src-1;
+  }
   ny_now = jend-jstart+1;
   istart = 0;
   nx_now = nx_src;
-- 
2.43.0


From 9981744025c2b470bf37320ce64037b68afd5a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:23 +0000
Subject: [PATCH 079/140] fix: runoff_regrid finds the nearest ocean point also
 when it is on the other side of the globe

---
 src/runoff-regrid/runoff_regrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runoff-regrid/runoff_regrid.c b/src/runoff-regrid/runoff_regrid.c
index 206dfc0..62a8500 100644
--- a/src/runoff-regrid/runoff_regrid.c
+++ b/src/runoff-regrid/runoff_regrid.c
@@ -711,7 +711,7 @@ void nearest(int nlon, int nlat, double *mask, const double *lon, const double *
   int i,j, n;
   double r, r1;
 
-  r = distance(0.0,M_PI/2,0.0,-M_PI/2);  /* some big value */
+  r = 2*distance(0.0,M_PI/2,0.0,-M_PI/2);  /* larger than any distance */
   for(j=0; j<nlat; j++) for(i=0; i<nlon; i++) {
     n = j*nlon+i;
     if(mask[n] == 0.0) continue;
-- 
2.43.0


From eac4802be9e605f07c05121e9422cdea8a6e3d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:28 +0000
Subject: [PATCH 080/140] fix: check_mask --sea_level takes a fraction of a
 metre

---
 src/check-mask/check_mask.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/check-mask/check_mask.c b/src/check-mask/check_mask.c
index 9672842..42a7744 100644
--- a/src/check-mask/check_mask.c
+++ b/src/check-mask/check_mask.c
@@ -262,7 +262,7 @@ int main (int argc, char *argv[])
       halo = atoi(optarg);
       break;
     case 'f':
-      sea_level = atoi(optarg);
+      sea_level = atof(optarg);
       break;
     case 'g':
       show_valid_only = 1;
-- 
2.43.0


From 55930f753c994f87a789b52355b2c6913782d3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:05 +0000
Subject: [PATCH 081/140] fix: check_mask reads only the exchange grids of the
 land tile

---
 src/check-mask/check_mask.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/check-mask/check_mask.c b/src/check-mask/check_mask.c
index 42a7744..7de417f 100644
--- a/src/check-mask/check_mask.c
+++ b/src/check-mask/check_mask.c
@@ -987,7 +987,8 @@ void get_grid_size( const char *grid_file, int grid_version, int *nx, int *ny )
    /* initialize area to 0 */
    for(i=0; i<nx*ny; i++) area[i] = 0;
    
-   sprintf(tile_name, "%s_tile%d", land_mosaic_name, tile);
+   /* the exchange grid files are named <atmos>X<land>.nc */
+   sprintf(tile_name, "X%s_tile%d.nc", land_mosaic_name, tile);
    get_file_dir(mosaic_file, dir);
    
    fid = mpp_open(mosaic_file, MPP_READ);
-- 
2.43.0


From 1d93cab0647f75bd95fe9bde1cc9fd038022b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:05 +0000
Subject: [PATCH 082/140] fix: check_mask fills the corners of the halo of a
 doubly cyclic grid

---
 src/check-mask/check_mask.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/check-mask/check_mask.c b/src/check-mask/check_mask.c
index 7de417f..7750248 100644
--- a/src/check-mask/check_mask.c
+++ b/src/check-mask/check_mask.c
@@ -589,15 +589,15 @@ void check_ocean_mask(int nx, int ny, const double *wet_in, int cyclic_x, int cy
   }
 
   if( cyclic_y ) {
-    for(i=0; i<nx; i++) {
+    for(i=0; i<nxd; i++) {
       for(j=0; j<halo; j++) {  /* south halo */
-	n1 = (ny+halo-1-j)*nxd + i+halo;
-	n2 = j*nxd + i+halo;
+	n1 = (ny+halo-1-j)*nxd + i;
+	n2 = j*nxd + i;
 	wet[n2] = wet[n1];
       }
       for(j=0; j<halo; j++) { /* north halo */
-	n1 = (halo+j)*nxd + i+halo;
-	n2 = (ny+halo+j)*nxd + i+halo;
+	n1 = (halo+j)*nxd + i;
+	n2 = (ny+halo+j)*nxd + i;
 	wet[n2] = wet[n1];
       }
     }
-- 
2.43.0


From 16e9e0a2b7b56a020a9cdafa290b1780a3276bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:23 +0000
Subject: [PATCH 083/140] fix: check_mask fills the columns and rows of a
 cyclic halo in their order

---
 src/check-mask/check_mask.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/check-mask/check_mask.c b/src/check-mask/check_mask.c
index 7750248..4bcc950 100644
--- a/src/check-mask/check_mask.c
+++ b/src/check-mask/check_mask.c
@@ -576,7 +576,7 @@ void check_ocean_mask(int nx, int ny, const double *wet_in, int cyclic_x, int cy
   if( cyclic_x ) {
     for(j=0; j<ny; j++) {
       for(i=0; i<halo; i++) {  /* west halo */
-	n1 = (j+halo)*nxd + nx+halo-1-i;
+	n1 = (j+halo)*nxd + nx+i;
 	n2 = (j+halo)*nxd+i;
 	wet[n2] = wet[n1];
       }
@@ -591,7 +591,7 @@ void check_ocean_mask(int nx, int ny, const double *wet_in, int cyclic_x, int cy
   if( cyclic_y ) {
     for(i=0; i<nxd; i++) {
       for(j=0; j<halo; j++) {  /* south halo */
-	n1 = (ny+halo-1-j)*nxd + i;
+	n1 = (ny+j)*nxd + i;
 	n2 = j*nxd + i;
 	wet[n2] = wet[n1];
       }
-- 
2.43.0


From 7ee78e7ed5f0f8340bbd6a9be1eda8bdd1057d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:16 +0000
Subject: [PATCH 084/140] fix: remap_land has room in the history for long
 command lines

---
 src/remap-land/remap_land.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index 4b52a64..0211bc4 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -239,7 +239,7 @@ int main(int argc, char *argv[]) {
   int ncoho_idx_tot_src = 0;
 
   int filetype;
-  char history[1280];
+  char history[16*FNAME_MAXSIZE];
   double *x_src = NULL, *y_src = NULL;
   int time_exist, zaxis_exist, ntime;
   int *has_taxis = NULL, *var_type = NULL, *ndim_src = NULL, *nz_src = NULL;
-- 
2.43.0


From 3c60538d30e2b9494b8cfdaae37593b63e288ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:16 +0000
Subject: [PATCH 085/140] fix: remap_land writes the cohort axis when only the
 cold restart has it

---
 src/remap-land/remap_land.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index 0211bc4..ff340c9 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -2247,7 +2247,7 @@ int main(int argc, char *argv[]) {
         if (t == 0 && src_has_cohort == 0 && cold_has_cohort == 1) {
           int *cohort_data_cold = NULL;
           cohort_data_cold = (int *)malloc(ncohort * sizeof(int));
-          for (int ic = 0; ic < ncohort; ic++) cohort_data[ic] = ic + 1;
+          for (int ic = 0; ic < ncohort; ic++) cohort_data_cold[ic] = ic + 1;
           vid_dst = mpp_get_varid(fid_dst, COHORT_NAME);
           mpp_put_var_value(fid_dst, vid_dst, cohort_data_cold);
           free(cohort_data_cold);
-- 
2.43.0


From 8b524bb521905af01e26d0a1552f0e26ace1577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:16 +0000
Subject: [PATCH 086/140] fix: remap_land looks for cohorts on all faces of the
 source grid

---
 src/remap-land/remap_land.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index ff340c9..35c708c 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -1538,7 +1538,7 @@ int main(int argc, char *argv[]) {
       if (filetype == VEGNTYPE) {
 
         ncoho_idx_dst = compute_dst_coho_idx_size(isc_dst, iec_dst, ntile_src, ncohort, nx_src * ny_src, ntile_src,
-                                                  nface_dst,face_dst, idx_map_soil, idx_map_soil_sf, face_map_soil,
+                                                  nface_src, face_dst, idx_map_soil, idx_map_soil_sf, face_map_soil,
                                                   land_idx_map, land_idx_map_otn, idx_soil_src_otn, ncoho_idx_src, coho_idx_src);
         ncoho_idx_dst_global = ncoho_idx_dst;
         mpp_sum_int(1, &ncoho_idx_dst_global); //TODO: Is a synch needed? Why the 1 in 1st arg.
@@ -1554,7 +1554,7 @@ int main(int argc, char *argv[]) {
         }
 
         int ncoho_idx_dst_temp = compute_dst_coho_idx(
-            isc_dst, iec_dst, nx_dst * ny_dst, ntile_src, ncohort, nx_src * ny_src, ntile_src, nface_dst, face_dst,
+            isc_dst, iec_dst, nx_dst * ny_dst, ntile_src, ncohort, nx_src * ny_src, ntile_src, nface_src, face_dst,
             idx_map_soil, idx_map_soil_sf, face_map_soil, land_idx_map, land_idx_map_otn, idx_soil_src_otn, ncoho_idx_src, coho_idx_src,
             coho_idx_dst, coho_idx_data_pos, coho_idx_data_face);
 
-- 
2.43.0


From 68649a3c05ef2128f942eccd2ab825728b830b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:44 +0000
Subject: [PATCH 087/140] fix: remap_land vegn does not need soil on the source
 face of the same number

---
 src/remap-land/remap_land.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index 35c708c..a46275c 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -1376,11 +1376,9 @@ int main(int argc, char *argv[]) {
         }
 
 
-          if (filetype == VEGNTYPE) {
-            search_nearest_sface(nx_src * ny_src, x_src, y_src, soil_count_src, nxc_dst, x_dst, y_dst,
-                                 soil_count_cold, idx_map_soil, face_map_soil, face_dst, idx_map_soil_sf);
-
-          }
+          /* the nearest point on the source face with the same number is not used, and that face may not exist
+             or have no soil */
+          for (i = 0; i < nxc_dst; i++) idx_map_soil_sf[i] = -1;
 
         if (write_remap_file) { /* write out restart file */
           int *gdata = NULL;
-- 
2.43.0


From 9681d95f83e5dca2b3d9fc5a7ea47097dd0644ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:10 +0000
Subject: [PATCH 088/140] fix: remap_land takes files with fields before
 cohort_index

---
 src/remap-land/remap_land.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index a46275c..25476b8 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -1573,6 +1573,8 @@ int main(int argc, char *argv[]) {
           coho_idata_dst_global_tmp = (int *)malloc(ncoho_idx_dst_global * sizeof(int));
           coho_rdata_dst_global_tmp = (double *)malloc(ncoho_idx_dst_global * sizeof(double));
         }
+        /* the order of the data, also for the fields that come before cohort_index in the file */
+        gather_sort_compressed_int_data(ncoho_idx_dst, coho_idx_dst, ncoho_idx_dst_global, coho_idata_dst_global, coho_idx_orig_global);
       }
 
       /* define the metadata for dst_restart_file */
-- 
2.43.0


From d8af3515ab8aab6b6e0cad30c08b7b94c9eda173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:35 +0000
Subject: [PATCH 089/140] fix: remap_land writes all axes and scalars of a face
 without tiles

---
 src/remap-land/remap_land.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index 25476b8..263ff0e 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -1709,15 +1709,15 @@ int main(int argc, char *argv[]) {
           if (!has_taxis[l] && t > 0) continue;
           mpp_get_varname(fid_src[0], l, varname);
 
-          if (nidx_dst_global == 0) {
-            if (strcmp(varname, LON_NAME) && strcmp(varname, LAT_NAME) && strcmp(varname, LEVEL_NAME) &&
-                strcmp(varname, TILE_NAME) && strcmp(varname, COHORT_NAME) && strcmp(varname, timename))
-              continue;
-          }
-
           vid_dst = mpp_get_varid(fid_dst, varname);
           vid_src = mpp_get_varid(fid_src[0], varname);
 
+          if (nidx_dst_global == 0 && ndim_src[l] > 0) {
+            /* no tiles on this face, there is no data for the fields on tiles and cohorts */
+            mpp_get_var_dimname(fid_src[0], vid_src, ndim_src[l] - 1, dimname);
+            if (!strcmp(dimname, TILE_INDEX_NAME) || !strcmp(dimname, COHORT_INDEX_NAME)) continue;
+          }
+
           if (time_exist) {
             if (strcmp(varname, timename) == 0) {
               /* copy the time data from src_restart_file to dst_restart_file */
-- 
2.43.0


From 70dc5875a7b4bafe1fdf7c0a7ccc5c8cf75e4e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:11 +0000
Subject: [PATCH 090/140] fix: remap_land keeps fill values of the source data
 in their place

---
 src/remap-land/remap_land.c | 50 ++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index 263ff0e..227219e 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -161,9 +161,9 @@ void full_search_nearest(int nface_src, int npts_src, const double *lon_src, con
                          const int *mask_src, int npts_dst, const double *lon_dst, const double *lat_dst,
                          const int *mask_dst, int *idx_map, int *face_map);
 void compress_int_data(int ntile, int npts, int nidx, int nidx_global, const int *land_count,
-                       const int *data, int *data_global, int all_tile );
+                       const int *data, int *data_global, const int *idx );
 void compress_double_data(int ntile, int npts, int nidx, int nidx_global, const int *land_count,
-                          const double *data, double *data_global, int all_tile );
+                          const double *data, double *data_global, const int *idx );
 int compute_dst_coho_idx(const int isc_d, const int iec_d, const int ns_d, const int nt_d, const int nc_d,
                          const int ns_s, const int nt_s, const int nface_s,
                          const int iface_d, const int *idx_map_soil, const int *idx_map_soi_sf, const int *face_map_soil,
@@ -1766,7 +1766,7 @@ int main(int argc, char *argv[]) {
             mpp_put_var_value(fid_dst, vid_dst, cohort_data);
           } else if (!strcmp(varname, TILE_INDEX_NAME)) {
             compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, idx_dst, idata_global,
-                              use_all_tile);
+                              idx_dst);
             mpp_put_var_value(fid_dst, vid_dst, idata_global);
           } else if (!strcmp(varname, COHORT_INDEX_NAME)) {
             //Note cohort_index is "pre-compressed
@@ -1776,27 +1776,27 @@ int main(int argc, char *argv[]) {
             mpp_put_var_value(fid_dst, vid_dst, coho_idata_dst_global);
           } else if (!strcmp(varname, FRAC_NAME)) {
             compress_double_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, land_frac_dst,
-                                 rdata_global, use_all_tile);
+                                 rdata_global, idx_dst);
             mpp_put_var_value(fid_dst, vid_dst, rdata_global);
           } else if (!strcmp(varname, GLAC_NAME)) {
             if (has_glac) {
               compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, glac_tag_dst,
-                                idata_global, use_all_tile);
+                                idata_global, idx_dst);
               mpp_put_var_value(fid_dst, vid_dst, idata_global);
             }
           } else if (!strcmp(varname, LAKE_NAME)) {
             if (has_lake) {
               compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, lake_tag_dst,
-                                idata_global, use_all_tile);
+                                idata_global, idx_dst);
               mpp_put_var_value(fid_dst, vid_dst, idata_global);
             }
           } else if (!strcmp(varname, SOIL_NAME)) {
             compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, soil_tag_dst, idata_global,
-                              use_all_tile);
+                              idx_dst);
             mpp_put_var_value(fid_dst, vid_dst, idata_global);
           } else if (!strcmp(varname, VEGN_NAME)) {
             compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, vegn_tag_dst, idata_global,
-                              use_all_tile);
+                              idx_dst);
             mpp_put_var_value(fid_dst, vid_dst, idata_global);
 
           } else if (!strcmp(varname, SPECIES_NAMES)) {
@@ -1878,7 +1878,7 @@ int main(int argc, char *argv[]) {
                   idata_dst[m] = idata_src[lll];
                 }
                 compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, idata_dst,
-                                  idata_global, use_all_tile);
+                                  idata_global, idx_dst);
                 mpp_put_var_value_block(fid_dst, vid_dst, start, nwrite, idata_global);
               } else if (var_type[l] == MPP_DOUBLE) {
                 for (m = 0; m < ntile_dst * nxc_dst; m++) {
@@ -1892,7 +1892,7 @@ int main(int argc, char *argv[]) {
                   data_dst[m] = data_src[lll];
                 }
                 compress_double_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, data_dst,
-                                     rdata_global, use_all_tile);
+                                     rdata_global, idx_dst);
                 mpp_put_var_value_block(fid_dst, vid_dst, start, nwrite, rdata_global);
               } else {
                 mpp_error("remap_land : writing block for vartype other than INT or DOUBLE");
@@ -2043,7 +2043,7 @@ int main(int argc, char *argv[]) {
                 idata_dst[m] = idata_src[lll];
               }
               compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, idata_dst, idata_global,
-                                use_all_tile);
+                                idx_dst);
               mpp_put_var_value_block(fid_dst, vid_dst, start, nwrite, idata_global);
             } else if (var_type[l] == MPP_DOUBLE) {
               for (m = 0; m < ntile_dst * nxc_dst; m++) {
@@ -2057,7 +2057,7 @@ int main(int argc, char *argv[]) {
                 data_dst[m] = data_src[lll];
               }
               compress_double_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, data_dst,
-                                   rdata_global, use_all_tile);
+                                   rdata_global, idx_dst);
               mpp_put_var_value_block(fid_dst, vid_dst, start, nwrite, rdata_global);
             }
           }else if ((ndim_src[l] - has_taxis[l] ) == 2){
@@ -2126,7 +2126,7 @@ int main(int argc, char *argv[]) {
                   idata_dst[m] = idata_src[lll];
                 }
                 compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, idata_dst,
-                                  idata_global, use_all_tile);
+                                  idata_global, idx_dst);
                 mpp_put_var_value_block(fid_dst, vid_dst, start, nwrite, idata_global);
               } else if (var_type[l] == MPP_DOUBLE) {
                 for (m = 0; m < ntile_dst * nxc_dst; m++) {
@@ -2140,7 +2140,7 @@ int main(int argc, char *argv[]) {
                   data_dst[m] = data_src[lll];
                 }
                 compress_double_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, data_dst,
-                                     rdata_global, use_all_tile);
+                                     rdata_global, idx_dst);
                 mpp_put_var_value_block(fid_dst, vid_dst, start, nwrite, rdata_global);
               } else {
                 mpp_error("remap_land : writing block for vartype other than INT or DOUBLE");
@@ -2212,7 +2212,7 @@ int main(int argc, char *argv[]) {
                     idata_dst[m] = idata_src[lll];
                   }
                   compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, idata_dst,
-                                    idata_global, use_all_tile);
+                                    idata_global, idx_dst);
                   mpp_put_var_value_block(fid_dst, vid_dst, start, nwrite, idata_global);
                 } else if (var_type[l] == MPP_DOUBLE) {
                   for (m = 0; m < ntile_dst * nxc_dst; m++) {
@@ -2226,7 +2226,7 @@ int main(int argc, char *argv[]) {
                     data_dst[m] = data_src[lll];
                   }
                   compress_double_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, data_dst,
-                                       rdata_global, use_all_tile);
+                                       rdata_global, idx_dst);
                   mpp_put_var_value_block(fid_dst, vid_dst, start, nwrite, rdata_global);
                 } else {
                   mpp_error("remap_land : writing block for vartype other than INT or DOUBLE");
@@ -2611,7 +2611,7 @@ void search_nearest_sface(const int npts_src, const double *lon_src, const doubl
     get global compressed data
     ------------------------------------------------------------------------*/
   void compress_double_data(int ntile, int npts, int nidx, int nidx_global, const int *land_count, const double *data,
-                            double *data_global, int all_tile) {
+                            double *data_global, const int *idx) {
     int pos1, pos2, pos, n, i, count;
     double *data_local = NULL;
 
@@ -2624,11 +2624,8 @@ void search_nearest_sface(const int npts_src, const double *lon_src, const doubl
       pos = pos1;
       for (i = 0; i < npts; i++) {
         if (n < land_count[i]) {
-          if (data[ntile * i + n] != MPP_FILL_DOUBLE) {
-            data_local[pos] = data[ntile * i + n];
-            if (!all_tile) pos++;
-          }
-          if (all_tile) pos++;
+          /* the tiles of this file are those with an index, whatever their value */
+          if (idx[ntile * i + n] != MPP_FILL_INT) data_local[pos++] = data[ntile * i + n];
         }
       }
       count = pos - pos1;
@@ -2649,7 +2646,7 @@ void search_nearest_sface(const int npts_src, const double *lon_src, const doubl
     Notes: Initialization of data_local and data_global varies from version of double data.
    ------------------------------------------------------------------------*/
   void compress_int_data(int ntile, int npts, int nidx, int nidx_global, const int *land_count, const int *data,
-                         int *data_global, int all_tile) {
+                         int *data_global, const int *idx) {
     int pos1, pos2, pos, n, i, count;
     int *data_local = NULL;
 
@@ -2662,11 +2659,8 @@ void search_nearest_sface(const int npts_src, const double *lon_src, const doubl
       pos = pos1;
       for (i = 0; i < npts; i++) {
         if (n < land_count[i]) {
-          if (data[ntile * i + n] != MPP_FILL_INT) {
-            data_local[pos] = data[ntile * i + n];
-            if (!all_tile) pos++;
-          }
-          if (all_tile) pos++;
+          /* the tiles of this file are those with an index, whatever their value */
+          if (idx[ntile * i + n] != MPP_FILL_INT) data_local[pos++] = data[ntile * i + n];
         }
       }
       count = pos - pos1;
-- 
2.43.0


From 1601817e8c620973bd948788923a5985d9438c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:00 +0000
Subject: [PATCH 091/140] fix: remap_land fire has soil tiles only, as vegn

---
 src/remap-land/remap_land.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index 227219e..0f9e477 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -1484,7 +1484,7 @@ int main(int argc, char *argv[]) {
               pos = land_count_dst[i];
               count = glac_count_src[p];
               if (count != 1) mpp_error("remap_land: glac_count_src should be 1");
-              if (filetype != SOILTYPE && filetype != VEGNTYPE && filetype != LAKETYPE) {
+              if (filetype != SOILTYPE && filetype != VEGNTYPE && filetype != FIRETYPE && filetype != LAKETYPE) {
                 glac_tag_dst[ntile_dst * i + pos] = glac_tag_src[p];
                 land_frac_dst[ntile_dst * i + pos] = glac_frac_cold[i]; /* preserve fraction in cold restart file
                                                                          */
@@ -1503,7 +1503,7 @@ int main(int argc, char *argv[]) {
               count = lake_count_src[p];
               pos = land_count_dst[i];
               if (count != 1) mpp_error("remap_land: lake_count_src should be 1");
-              if (filetype != SOILTYPE && filetype != VEGNTYPE && filetype != GLACTYPE) {
+              if (filetype != SOILTYPE && filetype != VEGNTYPE && filetype != FIRETYPE && filetype != GLACTYPE) {
                 lake_tag_dst[ntile_dst * i + pos] = lake_tag_src[p];
                 land_frac_dst[ntile_dst * i + pos] = lake_frac_cold[i]; /* preserve fraction in cold restart file*/
                 land_idx_map[ntile_dst * i + pos] = idx_lake_src[p];
-- 
2.43.0


From 4e75dc60ff2d451be4467c3a915e48f4fa3c8b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:05 +0000
Subject: [PATCH 092/140] fix: remap_land refuses more tiles on a cell than the
 tile dimension has

---
 src/remap-land/remap_land.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index 0f9e477..7829e56 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -1484,6 +1484,8 @@ int main(int argc, char *argv[]) {
               pos = land_count_dst[i];
               count = glac_count_src[p];
               if (count != 1) mpp_error("remap_land: glac_count_src should be 1");
+              if (pos >= ntile_dst)
+                mpp_error("remap_land: the tile dimension of src_restart is too small for the tiles on one grid cell");
               if (filetype != SOILTYPE && filetype != VEGNTYPE && filetype != FIRETYPE && filetype != LAKETYPE) {
                 glac_tag_dst[ntile_dst * i + pos] = glac_tag_src[p];
                 land_frac_dst[ntile_dst * i + pos] = glac_frac_cold[i]; /* preserve fraction in cold restart file
@@ -1503,6 +1505,8 @@ int main(int argc, char *argv[]) {
               count = lake_count_src[p];
               pos = land_count_dst[i];
               if (count != 1) mpp_error("remap_land: lake_count_src should be 1");
+              if (pos >= ntile_dst)
+                mpp_error("remap_land: the tile dimension of src_restart is too small for the tiles on one grid cell");
               if (filetype != SOILTYPE && filetype != VEGNTYPE && filetype != FIRETYPE && filetype != GLACTYPE) {
                 lake_tag_dst[ntile_dst * i + pos] = lake_tag_src[p];
                 land_frac_dst[ntile_dst * i + pos] = lake_frac_cold[i]; /* preserve fraction in cold restart file*/
@@ -2476,7 +2480,7 @@ void get_land_tile_info(int fid, const char *name1, const char *name2, int nidx,
       int it = idx_in[l] / (nx * ny);
       if (p < isc || p > iec) continue;
       p = p - isc;
-      if (count[p] > ntile)
+      if (count[p] >= ntile)
         mpp_error("remap_land: number of tiles is greater than allowed ntiles on one grid cell");
       frac[ntile * p + count[p]] = frac_in[l];
       tag1[ntile * p + count[p]] = tmp1[l];
-- 
2.43.0


From 34bced6b0e2a6c7d1538b3d399ccd422a5470ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:41 +0000
Subject: [PATCH 093/140] fix: check_mask reads the exchange grids of
 components that share one mosaic

---
 src/check-mask/check_mask.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/check-mask/check_mask.c b/src/check-mask/check_mask.c
index 4bcc950..61ee215 100644
--- a/src/check-mask/check_mask.c
+++ b/src/check-mask/check_mask.c
@@ -974,7 +974,7 @@ void get_grid_size( const char *grid_file, int grid_version, int *nx, int *ny )
  
    int i, n_xgrid_file, fid, vid, m, n;
    size_t start[4], nread[4];
-   char tile_name[STRING], dir[STRING], file[STRING];
+   char tile_name[STRING+32], same_tile_name[STRING+32], dir[STRING], file[STRING];
    char xgrid_file[STRING];
    int nxgrid;
    int *i1=NULL, *j1=NULL, *i2=NULL, *j2=NULL;
@@ -987,8 +987,10 @@ void get_grid_size( const char *grid_file, int grid_version, int *nx, int *ny )
    /* initialize area to 0 */
    for(i=0; i<nx*ny; i++) area[i] = 0;
    
-   /* the exchange grid files are named <atmos>X<land>.nc */
+   /* the exchange grid files are named <atmos>X<land>.nc, or atm_<atmos>Xlnd_<land>.nc
+      when the components share one mosaic */
    sprintf(tile_name, "X%s_tile%d.nc", land_mosaic_name, tile);
+   sprintf(same_tile_name, "Xlnd_%s_tile%d.nc", land_mosaic_name, tile);
    get_file_dir(mosaic_file, dir);
    
    fid = mpp_open(mosaic_file, MPP_READ);
@@ -1003,7 +1005,7 @@ void get_grid_size( const char *grid_file, int grid_version, int *nx, int *ny )
      mpp_get_var_value_block(fid, vid, start, nread, file);
      sprintf(xgrid_file, "%s/%s", dir, file);
      if(ntiles>1) {
-       if( !strstr(xgrid_file, tile_name) ) continue;
+       if( !strstr(xgrid_file, tile_name) && !strstr(xgrid_file, same_tile_name) ) continue;
      }
      nxgrid = read_mosaic_xgrid_size(xgrid_file);
      i1 = (int *)malloc(nxgrid*sizeof(int));
-- 
2.43.0


From def682ed82bc3b51576cce9dfe89d764b0df41ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:55 +0000
Subject: [PATCH 094/140] fix: river_regrid takes the source cells of the whole
 cell at a pole

---
 src/river-regrid/river_regrid.c | 36 +++++++++------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/src/river-regrid/river_regrid.c b/src/river-regrid/river_regrid.c
index 0cc8dd2..574fbba 100644
--- a/src/river-regrid/river_regrid.c
+++ b/src/river-regrid/river_regrid.c
@@ -151,7 +151,6 @@ void calc_max_subA(const river_type *river_in, river_type *river_out,
 		   int ntiles, unsigned int opcode);
 void update_halo_double(int ntiles, double **data, int nx, int ny, unsigned int opcode);
 void update_halo_int(int ntiles, int **data, int nx, int ny, unsigned int opcode);
-void adjust_lon(double x[], double tlon);
 void calc_tocell(int ntiles, river_type *river_out, unsigned int opcode );
 void calc_river_data(int ntiles, river_type* river_data, unsigned int opcode  );
 void sort_basin(int ntiles, river_type* river_data);
@@ -698,6 +697,8 @@ void calc_max_subA(const river_type *river_in, river_type *river_out, int ntiles
   int n, i, j, i1, j1, ii, jj, n_out;
   double missing, ll_y, ur_y, ll_x, ur_x;
   double xv1[4], yv1[4], xv2[20], yv2[20];
+  double xp[20], yp[20];
+  int    n_in, k;
   double *xb_in, *yb_in;
   double *xb_out, *yb_out;
   double **psubA;
@@ -746,11 +747,14 @@ void calc_max_subA(const river_type *river_in, river_type *river_out, int ntiles
 	  if(river_in->subA[jj*nx_in+ii] == missing) continue;
 	  ll_x = xb_in[ii];
 	  ur_x = xb_in[ii+1];
-	  /* adjust xv1 to make sure it is in the range as ll_x and ur_x */
-	  adjust_lon(xv1, 0.5*(ll_x + ur_x) );
-	  if ( (xv1[0]<=ll_x) && (xv1[1]<=ll_x) && (xv1[2]<=ll_x) && (xv1[3]<=ll_x) ) continue;
-	  if ( (xv1[0]>=ur_x) && (xv1[1]>=ur_x) && (xv1[2]>=ur_x) && (xv1[3]>=ur_x) ) continue;
-	  if ( (n_out = clip ( xv1, yv1, 4, ll_x, ll_y, ur_x, ur_y, xv2, yv2 )) > 0 ) {
+	  /* adjust the cell to make sure it is in the range as ll_x and ur_x, a corner at
+	     the pole has the longitudes of both sides that connect to it */
+	  for(k=0; k<4; k++) {
+	    xp[k] = xv1[k];
+	    yp[k] = yv1[k];
+	  }
+	  n_in = fix_lon(xp, yp, 4, 0.5*(ll_x + ur_x) );
+	  if ( (n_out = clip ( xp, yp, n_in, ll_x, ll_y, ur_x, ur_y, xv2, yv2 )) > 0 ) {
 	    double xarea;
 	    xarea = poly_area (xv2, yv2, n_out );
 	    if( xarea/river_out[n].area[j*nx_out+i] < MIN_AREA_RATIO ) continue;
@@ -853,26 +857,6 @@ void update_halo_int(int ntiles, int **data, int nx, int ny, unsigned int opcode
 
 }
 
-void adjust_lon(double x[], double tlon)
-{
-  double x_sum, dx;
-  int i, npts = 4;
-
-  x_sum = x[0];
-  for (i=1;i<npts;i++) {
-    double dx = x[i]-x[i-1];
-
-    if      (dx < -M_PI) dx = dx + 2*M_PI;
-    else if (dx >  M_PI) dx = dx - 2*M_PI;
-    x_sum += (x[i] = x[i-1] + dx);
-  }
-
-  dx = (x_sum/npts)-tlon;
-  if      (dx < -M_PI) for (i=0;i<npts;i++) x[i] += 2*M_PI;
-  else if (dx >  M_PI) for (i=0;i<npts;i++) x[i] -= 2*M_PI;
-
-}; /* adjust_lon */
-
 /*------------------------------------------------------------------------------
   Find the tocell value for the new grid.
   void calc_tocell( )
-- 
2.43.0


From 95ebcec7b6992126982dcf58db5277ae5156b0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:22 +0000
Subject: [PATCH 095/140] fix: river_regrid has room for the whole command line
 in the history

---
 src/river-regrid/river_regrid.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/river-regrid/river_regrid.c b/src/river-regrid/river_regrid.c
index 574fbba..d8b2bab 100644
--- a/src/river-regrid/river_regrid.c
+++ b/src/river-regrid/river_regrid.c
@@ -172,7 +172,7 @@ int main(int argc, char* argv[])
   char         land_mosaic_dir[256];
   char         land_mosaic[256];
   char         land_mosaic_file[256];
-  char         history[1024];
+  char         *history         = NULL;
   int          read_land_mask = 0;
   int          great_circle_algorithm = 0;
 
@@ -233,6 +233,11 @@ int main(int argc, char* argv[])
   if( !mosaic_file    ) mpp_error("fregrid: mosaic_grid is not specified");
   if( !river_src_file ) mpp_error("fregrid: river_source_file is not specified");
 
+  {
+    size_t len = strlen(argv[0])+1;
+    for(n=1;n<argc;n++) len += strlen(argv[n])+1;
+    history = (char *)malloc(len);
+  }
   strcpy(history,argv[0]);
   for(n=1;n<argc;n++)  {
     strcat(history, " ");
-- 
2.43.0


From 7f68c02241d8a49e0d71d91491fce6d8c0a63bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:43 +0000
Subject: [PATCH 096/140] fix: river_regrid reads missing values of any numeric
 type

---
 src/river-regrid/river_regrid.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/river-regrid/river_regrid.c b/src/river-regrid/river_regrid.c
index d8b2bab..ff959f9 100644
--- a/src/river-regrid/river_regrid.c
+++ b/src/river-regrid/river_regrid.c
@@ -330,20 +330,20 @@ void get_source_data(const char *src_file, river_type *river_data)
   river_data->xb_r = (double *)malloc(nxp*sizeof(double));
   river_data->yb_r = (double *)malloc(nyp*sizeof(double));
   river_data->subA = (double *)malloc(nx*ny*sizeof(double));
-  mpp_get_var_att(fid, vid, "missing_value", &(river_data->subA_missing) );
+  mpp_get_var_att_double(fid, vid, "missing_value", &(river_data->subA_missing) );
   vid = mpp_get_varid(fid, tocell_name);
-  mpp_get_var_att(fid, vid, "missing_value", &dbl_missing );
+  mpp_get_var_att_double(fid, vid, "missing_value", &dbl_missing );
   river_data->tocell_missing = dbl_missing;
   vid = mpp_get_varid(fid, travel_name);
-  mpp_get_var_att(fid, vid, "missing_value", &dbl_missing );
+  mpp_get_var_att_double(fid, vid, "missing_value", &dbl_missing );
   river_data->travel_missing = dbl_missing;
   vid = mpp_get_varid(fid, basin_name);
-  mpp_get_var_att(fid, vid, "missing_value", &dbl_missing );
+  mpp_get_var_att_double(fid, vid, "missing_value", &dbl_missing );
   river_data->basin_missing = dbl_missing;
   vid = mpp_get_varid(fid, cellarea_name);
-  mpp_get_var_att(fid, vid, "missing_value", &(river_data->cellarea_missing) );
+  mpp_get_var_att_double(fid, vid, "missing_value", &(river_data->cellarea_missing) );
   vid = mpp_get_varid(fid, celllength_name);
-  mpp_get_var_att(fid, vid, "missing_value", &(river_data->celllength_missing) );
+  mpp_get_var_att_double(fid, vid, "missing_value", &(river_data->celllength_missing) );
 
   vid = mpp_get_varid(fid, subA_name);
   mpp_get_var_value(fid, vid, river_data->subA);
-- 
2.43.0


From 6a6cd330268f091fa5bc5ebd0274fda7c864e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:00 +0000
Subject: [PATCH 097/140] fix: river_regrid reads the exchange grids of
 components that share one mosaic

---
 src/river-regrid/river_regrid.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/river-regrid/river_regrid.c b/src/river-regrid/river_regrid.c
index ff959f9..607ec70 100644
--- a/src/river-regrid/river_regrid.c
+++ b/src/river-regrid/river_regrid.c
@@ -386,7 +386,7 @@ void get_mosaic_grid(const char *coupler_mosaic, const char *land_mosaic, int nt
   int    n, m, i, j, ii, jj, nxp2, nyp2;
   size_t start[4], nread[4];
   char   dir[STRING], gridfile[STRING], tilefile[STRING];
-  char   tilename[STRING], land_mosaic_name[STRING];
+  char   tilename[STRING+32], same_tilename[STRING+32], land_mosaic_name[STRING];
   char   **xgrid_file;
   double *x, *y;
   double **pxt, **pyt;
@@ -499,9 +499,11 @@ void get_mosaic_grid(const char *coupler_mosaic, const char *land_mosaic, int nt
 
     /* calculate the land fraction */
     if(!read_land_mask) {
+      /* the name is <atmos>X<land>.nc, or atm_<atmos>Xlnd_<land>.nc when the components share one mosaic */
       sprintf(tilename, "X%s_tile%d", land_mosaic_name, n+1);
+      sprintf(same_tilename, "Xlnd_%s_tile%d", land_mosaic_name, n+1);
       for(m=0; m<n_xgrid_files; m++) {
-	if(strstr(xgrid_file[m],tilename) || ntiles == 1) {
+	if(strstr(xgrid_file[m],tilename) || strstr(xgrid_file[m],same_tilename) || ntiles == 1) {
 	  int    nxgrid, l;
 	  int    *i1, *j1, *i2, *j2;
 	  double *xgrid_area;
-- 
2.43.0


From 4c1f92a1082da69b3ebd9f9ac97c0426ce6e0cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:27 +0000
Subject: [PATCH 098/140] fix: river_regrid follows the rivers up from coast
 points that are full land cells

---
 src/river-regrid/river_regrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/river-regrid/river_regrid.c b/src/river-regrid/river_regrid.c
index 607ec70..5c06495 100644
--- a/src/river-regrid/river_regrid.c
+++ b/src/river-regrid/river_regrid.c
@@ -1084,7 +1084,7 @@ void calc_river_data(int ntiles, river_type* river_data, unsigned int opcode )
 
   not_done = 1;
   while(not_done) {
-    not_done = 0;
+    not_done = (cur_travel == 0); /* the coast points have travel 0 or 1 */
     for(n=0; n<ntiles; n++) {
       for(j=1; j<=ny; j++) for(i=1; i<=nx; i++) {
 	dir = pdir[n][j*nxp2+i];
-- 
2.43.0


From c610f3816568bfcb44132dc785ed43c154423090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:41 +0000
Subject: [PATCH 099/140] fix: river_regrid fills the whole halo rows of a grid
 cyclic in y

---
 src/river-regrid/river_regrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/river-regrid/river_regrid.c b/src/river-regrid/river_regrid.c
index 5c06495..8e2d5fe 100644
--- a/src/river-regrid/river_regrid.c
+++ b/src/river-regrid/river_regrid.c
@@ -799,7 +799,7 @@ void update_halo_double(int ntiles, double **data, int nx, int ny, unsigned int
     }
   }
   if(opcode & Y_CYCLIC) {
-    for(i=1; i<nyp1; i++) {
+    for(i=1; i<nxp1; i++) {
       data[0][i]           = data[0][ny*nxp2+i];     /* south */
       data[0][nyp1*nxp2+i] = data[0][nxp2+i];        /* north */
     }
-- 
2.43.0


From 9f25ce183fcc91df5689131b1c228dfb60d686d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:17 +0000
Subject: [PATCH 100/140] fix: river_regrid has room for the names of its
 output files

---
 src/river-regrid/river_regrid.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/river-regrid/river_regrid.c b/src/river-regrid/river_regrid.c
index 8e2d5fe..3c518b8 100644
--- a/src/river-regrid/river_regrid.c
+++ b/src/river-regrid/river_regrid.c
@@ -138,7 +138,7 @@ typedef struct {
   int    tocell_missing;
   int    travel_missing;
   int    basin_missing;
-  char   filename[128];
+  char   filename[512];
 } river_type;
 
 //inline void swap(void *x, void *y, size_t l);
@@ -206,6 +206,7 @@ int main(int argc, char* argv[])
       river_src_file = optarg;
       break;
     case 'c':
+      if(strlen(optarg) >= sizeof(output_file)) mpp_error("river_regrid: the output file name is too long");
       strcpy(output_file,optarg);
       break;
     case 'd':
-- 
2.43.0


From 1fafbe45a03ac1d2d6ca67c54f49f8e5206e55a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:29 +0000
Subject: [PATCH 101/140] fix: make_quick_mosaic has room for the whole command
 line in the history

---
 src/make-quick-mosaic/make_quick_mosaic.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/make-quick-mosaic/make_quick_mosaic.c b/src/make-quick-mosaic/make_quick_mosaic.c
index bb3f4eb..38edee2 100644
--- a/src/make-quick-mosaic/make_quick_mosaic.c
+++ b/src/make-quick-mosaic/make_quick_mosaic.c
@@ -117,7 +117,7 @@ int main (int argc, char *argv[])
   char amosaic_name[STRING] = "atmos_mosaic";
   char omosaic_name[STRING] = "ocean_mosaic";
   char lmosaic_name[STRING] = "land_mosaic";
-  char history[512];
+  char *history = NULL;
   int  use_ocean_topog = 0;
   int  use_land_frac=0;
   int  fid_solo_mosaic, tid_gridtile;
@@ -166,6 +166,11 @@ int main (int argc, char *argv[])
     exit(2);
   }
 
+  {
+    size_t len = strlen(argv[0])+1;
+    for(i=1;i<argc;i++) len += strlen(argv[i])+1;
+    history = (char *)malloc(len);
+  }
   strcpy(history,argv[0]);
 
   for(i=1;i<argc;i++) {
-- 
2.43.0


From 19570054dfb4ce0cad3ea8c93e0af37a1b7ef604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:29 +0000
Subject: [PATCH 102/140] fix: make_regional_mosaic has room for the whole
 command line in the history

---
 src/make-regional-mosaic/make_regional_mosaic.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/make-regional-mosaic/make_regional_mosaic.c b/src/make-regional-mosaic/make_regional_mosaic.c
index 6401f74..a6f8cd8 100644
--- a/src/make-regional-mosaic/make_regional_mosaic.c
+++ b/src/make-regional-mosaic/make_regional_mosaic.c
@@ -76,7 +76,7 @@ int main(int argc, char* argv[])
   int nx, ny, i_min, i_max, j_min, j_max;
 
   double *x=NULL, *y=NULL;
-  char history[512], dir[512];
+  char *history = NULL, dir[512];
   char gridfile[512], tilename[32];
   int errflg, c, i;
   int option_index;
@@ -123,6 +123,11 @@ int main(int argc, char* argv[])
     exit(2);
   }
 
+  {
+    size_t len = strlen(argv[0])+1;
+    for(i=1;i<argc;i++) len += strlen(argv[i])+1;
+    history = (char *)malloc(len);
+  }
   strcpy(history,argv[0]);
 
   for(i=1;i<argc;i++) {
-- 
2.43.0


From b0ac12ab20bfd98b174e802d2a6400f834512fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:29 +0000
Subject: [PATCH 103/140] fix: make_land_domain has room for the whole command
 line in the history

---
 src/make-land-domain/make_land_domain.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/make-land-domain/make_land_domain.c b/src/make-land-domain/make_land_domain.c
index c8a06ab..b307e6d 100644
--- a/src/make-land-domain/make_land_domain.c
+++ b/src/make-land-domain/make_land_domain.c
@@ -287,11 +287,16 @@ int main(int argc, char* argv[])
 
   /* write out the data */
   {
-    char history[1280];
+    char *history = NULL;
     int dim_nfaces, dim_nlands;
     int id_nland_face, id_grid_index, id_grid_ntile;
     int n;
 
+    {
+      size_t len = strlen(argv[0])+1;
+      for(n=1;n<argc;n++) len += strlen(argv[n])+1;
+      history = (char *)malloc(len);
+    }
     strcpy(history,argv[0]);
     for(n=1;n<argc;n++) {
       strcat(history, " ");
-- 
2.43.0


From a33dbae9d5bf4e532cdf2c8f79078ce91ae4997b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:29 +0000
Subject: [PATCH 104/140] fix: make_solo_mosaic has room for the whole command
 line in the history

---
 src/make-solo-mosaic/make_solo_mosaic.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/make-solo-mosaic/make_solo_mosaic.c b/src/make-solo-mosaic/make_solo_mosaic.c
index cf81a74..da5d051 100644
--- a/src/make-solo-mosaic/make_solo_mosaic.c
+++ b/src/make-solo-mosaic/make_solo_mosaic.c
@@ -86,7 +86,7 @@ int main (int argc, char *argv[])
 {
 
   extern char *optarg;
-  char *pch=NULL, *dir=NULL, history[512], entry[1280];
+  char *pch=NULL, *dir=NULL, *history=NULL, entry[1280];
   char tilefile[MAXTILE][STRING], tiletype[MAXTILE][SHORTSTRING];
   char tile_name[MAXTILE][STRING];
   int ntiles=0, nfiles=0, ncontact=0;
@@ -161,6 +161,11 @@ int main (int argc, char *argv[])
     exit(2);
   }
 
+  {
+    size_t len = strlen(argv[0])+1;
+    for(i=1;i<argc;i++) len += strlen(argv[i])+1;
+    history = (char *)malloc(len);
+  }
   strcpy(history,argv[0]);
 
   for(i=1;i<argc;i++) {
-- 
2.43.0


From d3f4eb53381d33d608b5bbf64ea6377274f9f277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:12 +0000
Subject: [PATCH 105/140] fix: make_quick_mosaic writes the name of the
 topography file of several tiles

---
 src/make-quick-mosaic/make_quick_mosaic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-quick-mosaic/make_quick_mosaic.c b/src/make-quick-mosaic/make_quick_mosaic.c
index 38edee2..7ee9262 100644
--- a/src/make-quick-mosaic/make_quick_mosaic.c
+++ b/src/make-quick-mosaic/make_quick_mosaic.c
@@ -810,7 +810,7 @@ printf("%15.10f, %15.10f, %15.10f\n", ocean_area[n][i], land_area[n][i]+AREA_RAT
     mpp_put_var_value_block(fid, id_omosaic, start, nwrite, omosaic_name);
 
     for(n=0; n<ntiles; n++) {
-      start[0] = n; nwrite[0] =1;
+      start[0] = 0; nwrite[0] =1;
       start[1] = 0; nwrite[1] =1;
       if(use_ocean_topog) {
          nwrite[0] = strlen(ocn_topog_file[n]);
-- 
2.43.0


From 278a72b2dc0ad8fbe8bce2176bccd865f6190080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:49 +0000
Subject: [PATCH 106/140] fix: make_quick_mosaic finds the land fraction files
 of several tiles

---
 src/make-quick-mosaic/make_quick_mosaic.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/make-quick-mosaic/make_quick_mosaic.c b/src/make-quick-mosaic/make_quick_mosaic.c
index 7ee9262..0e7bc08 100644
--- a/src/make-quick-mosaic/make_quick_mosaic.c
+++ b/src/make-quick-mosaic/make_quick_mosaic.c
@@ -367,10 +367,8 @@ int main (int argc, char *argv[])
     /* attach tile number if ntiles > 1 */
     if(ntiles>1) {
       len = strlen(land_frac_file);
-      if( strstr(land_frac_file, ".nc") )
-	strncpy(str1, land_frac_file, len-3);
-      else
-	strcpy(str1, land_frac_file);
+      strcpy(str1, land_frac_file);
+      if( len > 3 && strcmp(land_frac_file+len-3, ".nc") == 0 ) str1[len-3] = '\0';
     }
 
     for(n=0; n<ntiles; n++) {
-- 
2.43.0


From 22231167e8f355125e492c2fe16a0a3078189063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:02 +0000
Subject: [PATCH 107/140] fix: make_quick_mosaic has room for the commands that
 copy the grid files

---
 src/make-quick-mosaic/make_quick_mosaic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-quick-mosaic/make_quick_mosaic.c b/src/make-quick-mosaic/make_quick_mosaic.c
index 0e7bc08..0f2cb52 100644
--- a/src/make-quick-mosaic/make_quick_mosaic.c
+++ b/src/make-quick-mosaic/make_quick_mosaic.c
@@ -238,7 +238,7 @@ int main (int argc, char *argv[])
   /* copy the solo_mosaic file and grid file */
   {
     int fid2, vid2;
-    char cmd[STRING], gridfile[STRING];
+    char cmd[3*STRING], gridfile[STRING];
     size_t start[4], nread[4];
     sprintf(cmd, "cp %s %s", filepath, solo_mosaic);
 
-- 
2.43.0


From 5bd12d540eb23fca8f69eb13d93896b589b9592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:57 +0000
Subject: [PATCH 108/140] fix: make_land_domain reads the restart file of a
 one-tile mosaic

---
 src/make-land-domain/make_land_domain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-land-domain/make_land_domain.c b/src/make-land-domain/make_land_domain.c
index b307e6d..7497e2b 100644
--- a/src/make-land-domain/make_land_domain.c
+++ b/src/make-land-domain/make_land_domain.c
@@ -231,7 +231,7 @@ int main(int argc, char* argv[])
       int num_idx, i;
       int *idx;
       if(nfaces==1)
-	strcpy(land_restart, land_restart_file);
+	strcpy(land_restart_file, land_restart);
       else
 	sprintf(land_restart_file, "%s.tile%d.nc", land_restart, face+1);
       fid2 = mpp_open(land_restart_file, MPP_READ);
-- 
2.43.0


From 51b369e7641c1769272d2615c3372258c0da1144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:13 +0000
Subject: [PATCH 109/140] fix: make_land_domain reads only the exchange grids
 of the land face

---
 src/make-land-domain/make_land_domain.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/make-land-domain/make_land_domain.c b/src/make-land-domain/make_land_domain.c
index 7497e2b..25bf513 100644
--- a/src/make-land-domain/make_land_domain.c
+++ b/src/make-land-domain/make_land_domain.c
@@ -159,13 +159,16 @@ int main(int argc, char* argv[])
     nland_face = (int *)malloc(nfaces*sizeof(int));
     nlands = 0;
     for(face=0; face<nfaces; face++) {
-      char face_name[STRING];
+      char face_name[STRING+32], same_face_name[STRING+32];
 
 
       nland_face[face] = 0;
       land_mask[face] = (int *)malloc(nx*ny*sizeof(int));
       for(n=0; n<nx*ny; n++) land_mask[face][n] = 0;
-      sprintf(face_name, "%s_tile%d", mosaic_name, face+1);
+      /* the exchange grid files are named <atmos>X<land>.nc, or atm_<atmos>Xlnd_<land>.nc
+	 when the components share one mosaic */
+      sprintf(face_name, "X%s_tile%d.nc", mosaic_name, face+1);
+      sprintf(same_face_name, "Xlnd_%s_tile%d.nc", mosaic_name, face+1);
       for(n=0; n<nx*ny; n++) land_area[n] = 0.0;
       for(n=0; n<nfile_aXl; n++) {
 	size_t start[4], nread[4];
@@ -176,7 +179,7 @@ int main(int argc, char* argv[])
 	nread[0] = 1;
 	nread[1] = STRING;
 	mpp_get_var_value_block(fid, vid, start, nread, aXl_file);
-	if( !strstr(aXl_file, face_name) ) continue;
+	if( !strstr(aXl_file, face_name) && !strstr(aXl_file, same_face_name) ) continue;
 	sprintf(filepath, "%s/%s", griddir, aXl_file);
 	nxgrid = read_mosaic_xgrid_size(filepath);
 	if(nxgrid>0) {
-- 
2.43.0


From 3ae5b20fc0185e761d6990f7a05dc29c442fd3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:18 +0000
Subject: [PATCH 110/140] fix: make_solo_mosaic has room for the names of all
 tile files

---
 src/make-solo-mosaic/make_solo_mosaic.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/make-solo-mosaic/make_solo_mosaic.c b/src/make-solo-mosaic/make_solo_mosaic.c
index da5d051..8438b9a 100644
--- a/src/make-solo-mosaic/make_solo_mosaic.c
+++ b/src/make-solo-mosaic/make_solo_mosaic.c
@@ -86,7 +86,7 @@ int main (int argc, char *argv[])
 {
 
   extern char *optarg;
-  char *pch=NULL, *dir=NULL, *history=NULL, entry[1280];
+  char *pch=NULL, *dir=NULL, *history=NULL, *entry=NULL;
   char tilefile[MAXTILE][STRING], tiletype[MAXTILE][SHORTSTRING];
   char tile_name[MAXTILE][STRING];
   int ntiles=0, nfiles=0, ncontact=0;
@@ -133,13 +133,14 @@ int main (int argc, char *argv[])
       strcpy(grid_descriptor, optarg);
       break;
     case 'f':
-      strcpy(entry, optarg);
+      entry = strdup(optarg);
       pch = strtok(entry, ", ");
       nfiles = 0;
       while( pch != NULL) {
         strcpy(tilefile[nfiles++], pch);
 	pch = strtok(NULL, ", ");
       }
+      free(entry);
       break;
     case 'x':
       periodx = atof(optarg);
-- 
2.43.0


From 736d5bec29ce24c1ce8b943a87603f89e8647bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:32 +0000
Subject: [PATCH 111/140] fix: transfer_to_mosaic_grid writes the contacts of
 the ocean grid at hand

---
 src/transfer-mosaic-grid/transfer_to_mosaic.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/transfer-mosaic-grid/transfer_to_mosaic.c b/src/transfer-mosaic-grid/transfer_to_mosaic.c
index 72e16da..6e8a0a7 100644
--- a/src/transfer-mosaic-grid/transfer_to_mosaic.c
+++ b/src/transfer-mosaic-grid/transfer_to_mosaic.c
@@ -924,21 +924,21 @@ if(is_coupled_grid){
     mpp_close(fid_old);
     if (strcmp(x_boundary_type1, "cyclic")==0) {
 	n = ncontact; ncontact = ncontact + 1; 
-    	contact_tile1_istart[n]=360; contact_tile1_iend[n]=360; 
-    	contact_tile1_jstart[n]=1; contact_tile1_jend[n]=180; 
+    	contact_tile1_istart[n]=nx; contact_tile1_iend[n]=nx;
+    	contact_tile1_jstart[n]=1; contact_tile1_jend[n]=ny;
 
     	contact_tile2_istart[n]=1; contact_tile2_iend[n]=1; 
-    	contact_tile2_jstart[n]=1; contact_tile2_jend[n]=180;
+    	contact_tile2_jstart[n]=1; contact_tile2_jend[n]=ny;
 	printf("\t x_boundary_type = %s, ncontact=%d \n",x_boundary_type1,ncontact);
     }
     
     if (strcmp(y_boundary_type1, "fold_north_edge")==0) {
 	n = ncontact; ncontact = ncontact + 1; 
-        contact_tile1_istart[n]=1; contact_tile1_iend[n]=180;
-        contact_tile1_jstart[n]=180; contact_tile1_jend[n]=180;
+        contact_tile1_istart[n]=1; contact_tile1_iend[n]=nx/2;
+        contact_tile1_jstart[n]=ny; contact_tile1_jend[n]=ny;
 
-        contact_tile2_istart[n]=360; contact_tile2_iend[n]=181;
-        contact_tile2_jstart[n]=180; contact_tile2_jend[n]=180;
+        contact_tile2_istart[n]=nx; contact_tile2_iend[n]=nx/2+1;
+        contact_tile2_jstart[n]=ny; contact_tile2_jend[n]=ny;
 	printf("\t y_boundary_type = %s, ncontact=%d \n",y_boundary_type1,ncontact);
     }
 
-- 
2.43.0


From 576b28b6bee428b533adc4973cb561c7275ff766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:44 +0000
Subject: [PATCH 112/140] fix: transfer_to_mosaic_grid writes the contact of
 the land grid in supergrid indices

---
 src/transfer-mosaic-grid/transfer_to_mosaic.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/transfer-mosaic-grid/transfer_to_mosaic.c b/src/transfer-mosaic-grid/transfer_to_mosaic.c
index 6e8a0a7..52d0820 100644
--- a/src/transfer-mosaic-grid/transfer_to_mosaic.c
+++ b/src/transfer-mosaic-grid/transfer_to_mosaic.c
@@ -835,11 +835,11 @@ if(is_coupled_grid){
     sprintf(tilefile[0], "%s_hgrid.nc",land_name);
     fid = mpp_open(outfile, MPP_WRITE);
 
-    contact_tile1_istart[0]=nxbl-1; contact_tile1_iend[0]=nxbl-1; 
-    contact_tile1_jstart[0]=1; contact_tile1_jend[0]=nybl-1; 
+    contact_tile1_istart[0]=nxlp-1; contact_tile1_iend[0]=nxlp-1;
+    contact_tile1_jstart[0]=1; contact_tile1_jend[0]=nylp-1;
 
     contact_tile2_istart[0]=1; contact_tile2_iend[0]=1; 
-    contact_tile2_jstart[0]=1; contact_tile2_jend[0]=nybl-1;
+    contact_tile2_jstart[0]=1; contact_tile2_jend[0]=nylp-1;
     /*--------Initilize values --------------*/
 
     dim_ntiles = mpp_def_dim(fid, "ntiles", ntiles);
-- 
2.43.0


From 8e66f7d8deca0925fbb5d0fb4b24aa355f0e1d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:57 +0000
Subject: [PATCH 113/140] fix: transfer_to_mosaic_grid computes the first row
 of dy from ds_21_22_T when the file has it

---
 src/transfer-mosaic-grid/transfer_to_mosaic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transfer-mosaic-grid/transfer_to_mosaic.c b/src/transfer-mosaic-grid/transfer_to_mosaic.c
index 52d0820..5d9ec84 100644
--- a/src/transfer-mosaic-grid/transfer_to_mosaic.c
+++ b/src/transfer-mosaic-grid/transfer_to_mosaic.c
@@ -352,7 +352,7 @@ int main(int argc, char* argv[])
 	}
 	else {
 	   if(j==0)
-             dy[(2*j  )*nxp + (2*i+2)]   = ds_20_22_T[j*nx_T + i] - ds_10_11_C[j*nx_T + i];
+             dy[(2*j  )*nxp + (2*i+2)]   = ds_20_22_T[j*nx_T + i] - (exist_ds_21_22_T ? ds_21_22_T[j*nx_T + i] : ds_10_11_C[j*nx_T + i]);
 	   else
 	     dy[(2*j  )*nxp + (2*i+2)]   = ds_11_12_C[(j-1)*nx_T + i];
 	}
-- 
2.43.0


From f82ea635aa2dca644fd6ba2016a1847e709854f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:37 +0000
Subject: [PATCH 114/140] fix: fregrid --extrapolate: no gradient across the
 edges of the source, instead of a value of zero beyond them

---
 src/fre-grid/fregrid_util.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index fbcc944..79d381a 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -2834,4 +2834,14 @@ void fill_boundaries(int ni, int nj, double *data, int is_cyclic)
       data[j*(ni+2)+ni+1] = data[j*(ni+2)+1];
     }
   }
+  else { /* no gradient across a closed boundary */
+    for(j=1; j<=nj; j++) {
+      data[j*(ni+2)]      = data[j*(ni+2)+1];
+      data[j*(ni+2)+ni+1] = data[j*(ni+2)+ni];
+    }
+  }
+  for(i=1; i<=ni; i++) {
+    data[i]               = data[ni+2+i];
+    data[(nj+1)*(ni+2)+i] = data[nj*(ni+2)+i];
+  }
 }
-- 
2.43.0


From 4ae0f4ee69604ce9d0ef9eb307c4af0c3a4053f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:37 +0000
Subject: [PATCH 115/140] fix: fregrid --extrapolate: zeros of a field without
 a missing value are data, not points to fill

---
 src/fre-grid/fregrid_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 79d381a..56a498a 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -2152,7 +2152,7 @@ void get_input_data(int ntiles, Field_config *field, Grid_config *grid, Bound_co
     }
 
     /* extrapolate data if needed */
-    if(extrapolate) {
+    if(extrapolate && has_missing) {
       double *tmp = NULL;
 
       tmp = (double *)malloc(nx*ny*nz*sizeof(double));
-- 
2.43.0


From 26b2ee0c17e7d5c4c241d664bab3abf19415a842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:37 +0000
Subject: [PATCH 116/140] fix: fregrid --extrapolate: recognise the missing
 values of every record of a packed field, not only of the first

---
 src/fre-grid/fregrid.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fre-grid/fregrid.c b/src/fre-grid/fregrid.c
index 46d0c1c..8db0412 100644
--- a/src/fre-grid/fregrid.c
+++ b/src/fre-grid/fregrid.c
@@ -1042,6 +1042,7 @@ int main(int argc, char* argv[])
       /*--- to reduce memory usage, we are only do remapping for on horizontal level one time */
       for(level_n =0; level_n < scalar_in->var[l].nn; level_n++) {
 	if(extrapolate) {
+	  int has_missing = scalar_in->var[l].has_missing;
 	  get_input_data(ntiles_in, scalar_in, grid_in, bound_T, l, -1, level_n, level_t, extrapolate, stop_crit);
 	  allocate_field_data(ntiles_out, scalar_out, grid_out, scalar_in->var[l].nz);
 	  if( opcode & BILINEAR )
@@ -1050,6 +1051,8 @@ int main(int argc, char* argv[])
 	    do_scalar_conserve_interp(interp, l, ntiles_in, grid_in, ntiles_out, grid_out, scalar_in, scalar_out, opcode, scalar_in->var[l].nz);
           if(vertical_interp) do_vertical_interp(&vgrid_in, &vgrid_out, grid_out, scalar_out, l);
 	  write_field_data(ntiles_out, scalar_out, grid_out, l, -1, level_n, m);
+	  /* the data of the next record have missing values again */
+	  for(n=0; n<ntiles_in; n++) scalar_in[n].var[l].has_missing = has_missing;
 	  if(scalar_out->var[l].interp_method == CONSERVE_ORDER2) {
 	    for(n=0; n<ntiles_in; n++) {
 	      free(scalar_in[n].grad_x);
-- 
2.43.0


From b7f92e9374b7001537acebbe11b98977f2f08fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:37 +0000
Subject: [PATCH 117/140] fix: fregrid --dst_vgrid: target levels that are all
 above or all below the source levels

---
 src/fre-grid/fregrid_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 56a498a..5710b9b 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -813,11 +813,11 @@ void do_vertical_interp(VGrid_config *vgrid_in, VGrid_config *vgrid_out, Grid_co
     for(k=0; k<kstart; k++) {
       for(i=0; i<nx*ny; i++) field->data[k*nx*ny+i] = tmp[i];
     }
-    for(k=kend; k<nk2; k++) {
+    for(k=kend+1; k<nk2; k++) {
       for(i=0; i<nx*ny; i++) field->data[k*nx*ny+i] = tmp[(nk1-1)*nx*ny+i];
     }
     nk2 = kend - kstart + 1;
-    linear_vertical_interp(nx, ny, nk1, nk2, vgrid_in->z, vgrid_out->z+kstart, tmp, field->data+kstart*nx*ny);
+    if(nk2 > 0) linear_vertical_interp(nx, ny, nk1, nk2, vgrid_in->z, vgrid_out->z+kstart, tmp, field->data+kstart*nx*ny);
     free(tmp);
   }
 
-- 
2.43.0


From 6e44de20ab2b92757d0bdf52e63a572c2c02c2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:37 +0000
Subject: [PATCH 118/140] fix: fregrid --dst_vgrid: interpolate the levels of
 every output tile and of every domain

---
 src/fre-grid/fregrid.c      | 4 +++-
 src/fre-grid/fregrid_util.c | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fre-grid/fregrid.c b/src/fre-grid/fregrid.c
index 8db0412..295fc3a 100644
--- a/src/fre-grid/fregrid.c
+++ b/src/fre-grid/fregrid.c
@@ -1049,7 +1049,9 @@ int main(int argc, char* argv[])
 	    do_scalar_bilinear_interp(interp, l, ntiles_in, grid_in, grid_out, scalar_in, scalar_out, finer_step, fill_missing);
 	  else
 	    do_scalar_conserve_interp(interp, l, ntiles_in, grid_in, ntiles_out, grid_out, scalar_in, scalar_out, opcode, scalar_in->var[l].nz);
-          if(vertical_interp) do_vertical_interp(&vgrid_in, &vgrid_out, grid_out, scalar_out, l);
+          if(vertical_interp) {
+	    for(n=0; n<ntiles_out; n++) do_vertical_interp(&vgrid_in, &vgrid_out, grid_out+n, scalar_out+n, l);
+	  }
 	  write_field_data(ntiles_out, scalar_out, grid_out, l, -1, level_n, m);
 	  /* the data of the next record have missing values again */
 	  for(n=0; n<ntiles_in; n++) scalar_in[n].var[l].has_missing = has_missing;
diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 5710b9b..5916431 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -799,13 +799,13 @@ void do_vertical_interp(VGrid_config *vgrid_in, VGrid_config *vgrid_out, Grid_co
   if(vgrid_out->need_interp && field->var[varid].has_zaxis ) {
     nk1 = vgrid_in->nz;
     nk2 = vgrid_out->nz;
-    nx  = grid_out->nx;
-    ny  = grid_out->ny;
+    nx  = grid_out->nxc;
+    ny  = grid_out->nyc;
     tmp = (double *)malloc(nx*ny*nk1*sizeof(double));
     for(i=0; i<nx*ny*nk1; i++) tmp[i] = field->data[i];
     if(nk1 != nk2 ) {
       free(field->data);
-      field->data =  (double *)malloc(nx*ny*nk2*sizeof(double));
+      field->data =  (double *)malloc(grid_out->nx*grid_out->ny*nk2*sizeof(double));
     }
 
     kstart = vgrid_out->kstart;
-- 
2.43.0


From 00938177983d9d304e88ab5ec4486212095718ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:37 +0000
Subject: [PATCH 119/140] fix: fregrid --dst_vgrid: a field without levels
 keeps having none

---
 src/fre-grid/fregrid_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 5916431..231b608 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -1531,7 +1531,7 @@ void set_output_metadata (int ntiles_in, int nfiles, const File_config *file1_in
   for(n=0; n<ntiles_out; n++) {
     for(l=0; l<nscalar; l++) {
       copy_var_config(scalar_in[0].var+l, scalar_out[n].var+l);
-      if( vgrid_out->nz > 0) scalar_out[n].var[l].nz = vgrid_out->nz;
+      if( vgrid_out->nz > 0 && scalar_out[n].var[l].has_zaxis ) scalar_out[n].var[l].nz = vgrid_out->nz;
     }
 
     for(l=0; l<nvector; l++) {
-- 
2.43.0


From 8557decc871c0688e3490eb053e36644e8dda0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:37 +0000
Subject: [PATCH 120/140] fix: fregrid --dst_vgrid implies --extrapolate, with
 its preparations and its checks of the source grid

---
 src/fre-grid/fregrid.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fre-grid/fregrid.c b/src/fre-grid/fregrid.c
index 295fc3a..897c062 100644
--- a/src/fre-grid/fregrid.c
+++ b/src/fre-grid/fregrid.c
@@ -732,6 +732,8 @@ int main(int argc, char* argv[])
   else
     y_at_center = 1;
 
+  /* when vertical_interp is set, extrapolate must be set */
+  if( vertical_interp) extrapolate = 1;
   if(extrapolate) opcode |= EXTRAPOLATE;
 
   /* memory allocation for data structure */
@@ -794,8 +796,6 @@ int main(int argc, char* argv[])
     }
   }
 
-  /* when vertical_interp is set, extrapolate must be set */
-  if( vertical_interp) extrapolate = 1;
   /* vertical_interp and extrapolate is not supported for vector interpolation */
   if( nvector > 0) {
     if(vertical_interp) mpp_error("fregrid: vertical_interp is not supported for vector fields");
-- 
2.43.0


From 865a22741af466ec5004b149968ad4af7c178323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:37 +0000
Subject: [PATCH 121/140] fix: fregrid --extrapolate: cells outside of the
 source have the missing value of the field

---
 src/fre-grid/conserve_interp.c | 1 +
 src/fre-grid/fregrid_util.c    | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/src/fre-grid/conserve_interp.c b/src/fre-grid/conserve_interp.c
index 2a933aa..c726e05 100644
--- a/src/fre-grid/conserve_interp.c
+++ b/src/fre-grid/conserve_interp.c
@@ -536,6 +536,7 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 
   missing = -MAXVAL;
   if(has_missing) missing = field_in->var[varid].missing;
+  else if(field_out->var[varid].has_missing) missing = field_out->var[varid].missing; /* extrapolated */
 
   if( nz>1 && has_missing ) mpp_error("conserve_interp: has_missing should be false when nz > 1");
   if( nz>1 && cell_measures ) mpp_error("conserve_interp: cell_measures should be false when nz > 1");
diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 231b608..9622802 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -818,6 +818,13 @@ void do_vertical_interp(VGrid_config *vgrid_in, VGrid_config *vgrid_out, Grid_co
     }
     nk2 = kend - kstart + 1;
     if(nk2 > 0) linear_vertical_interp(nx, ny, nk1, nk2, vgrid_in->z, vgrid_out->z+kstart, tmp, field->data+kstart*nx*ny);
+    /* cells outside of the source stay missing */
+    if(field->var[varid].has_missing) {
+      for(i=0; i<nx*ny; i++) {
+        if(tmp[i] != field->var[varid].missing) continue;
+        for(k=0; k<vgrid_out->nz; k++) field->data[k*nx*ny+i] = tmp[i];
+      }
+    }
     free(tmp);
   }
 
-- 
2.43.0


From 52ccc4238f343dde88fee496152e9601bd5b177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:10 +0000
Subject: [PATCH 122/140] fix: fregrid --dst_vgrid interpolates from the levels
 that --KlevelBegin and --KlevelEnd select

---
 src/fre-grid/fregrid.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fre-grid/fregrid.c b/src/fre-grid/fregrid.c
index 897c062..32e64f4 100644
--- a/src/fre-grid/fregrid.c
+++ b/src/fre-grid/fregrid.c
@@ -821,6 +821,11 @@ int main(int argc, char* argv[])
     if(vertical_interp) {
       get_output_vgrid(&vgrid_out, dst_vgrid);
       get_input_vgrid(&vgrid_in, file_in[0].name, scalar_name[0]);
+      if(kbegin > 0) { /* only these levels are read */
+	if(kend > vgrid_in.nz) mpp_error("fregrid: KlevelEnd should be no larger than the number of vertical levels of field");
+	vgrid_in.z += kbegin-1;
+	vgrid_in.nz = kend-kbegin+1;
+      }
       setup_vertical_interp(&vgrid_in, &vgrid_out);
     }
 
-- 
2.43.0


From 63764e2e51131b9435fa07491667f7a68b1e9098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:10 +0000
Subject: [PATCH 123/140] fix: nearest_index of an array of one element does
 not read beyond it

---
 lib/libfrencutils/mosaic_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfrencutils/mosaic_util.c b/lib/libfrencutils/mosaic_util.c
index 6a4cd35..4e938e9 100644
--- a/lib/libfrencutils/mosaic_util.c
+++ b/lib/libfrencutils/mosaic_util.c
@@ -87,7 +87,7 @@ int nearest_index(double value, const double *array, int ia)
     if (array[i] < array[i-1])
       error_handler("nearest_index: array must be monotonically increasing");
   }
-  if (value < array[0] )
+  if (value <= array[0] )
     index = 0;
   else if ( value > array[ia-1])
     index = ia-1;
-- 
2.43.0


From d65de0321f3410b762bfc3c05e648c6f3c5084a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:00 +0000
Subject: [PATCH 124/140] fix: make_remap_file weights the cells of a finer
 input grid by their own area

---
 src/cubic_utils/make_remap_file.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/cubic_utils/make_remap_file.c b/src/cubic_utils/make_remap_file.c
index a8a9b66..51b5d8b 100644
--- a/src/cubic_utils/make_remap_file.c
+++ b/src/cubic_utils/make_remap_file.c
@@ -442,16 +442,16 @@ int main(int argc, char* argv[])
 	      j_in[pos] = j*ratio + j1;
 	      t_in[pos]  = n;
 	      /* calculate exchange grid area */
-	      px_out[0] = x_out[j_out[pos]*nip_out+i_out[pos]];
-	      py_out[0] = y_out[j_out[pos]*nip_out+i_out[pos]];
-	      px_out[1] = x_out[j_out[pos]*nip_out+i_out[pos]+1];
-	      py_out[1] = y_out[j_out[pos]*nip_out+i_out[pos]+1];
-	      px_out[2] = x_out[(j_out[pos]+1)*nip_out+i_out[pos]+1];
-	      py_out[2] = y_out[(j_out[pos]+1)*nip_out+i_out[pos]+1];
-	      px_out[3] = x_out[(j_out[pos]+1)*nip_out+i_out[pos]];
-	      py_out[3] = y_out[(j_out[pos]+1)*nip_out+i_out[pos]];
-	      n_out = fix_lon(px_out, py_out, 4, M_PI);
-	      xarea[pos] = poly_area (px_out, py_out, n_out );
+	      px_in[0] = x_in[j_in[pos]*nip_in+i_in[pos]];
+	      py_in[0] = y_in[j_in[pos]*nip_in+i_in[pos]];
+	      px_in[1] = x_in[j_in[pos]*nip_in+i_in[pos]+1];
+	      py_in[1] = y_in[j_in[pos]*nip_in+i_in[pos]+1];
+	      px_in[2] = x_in[(j_in[pos]+1)*nip_in+i_in[pos]+1];
+	      py_in[2] = y_in[(j_in[pos]+1)*nip_in+i_in[pos]+1];
+	      px_in[3] = x_in[(j_in[pos]+1)*nip_in+i_in[pos]];
+	      py_in[3] = y_in[(j_in[pos]+1)*nip_in+i_in[pos]];
+	      n_in = fix_lon(px_in, py_in, 4, M_PI);
+	      xarea[pos] = poly_area (px_in, py_in, n_in );
 	      area_in[j_in[pos]*ni_in+i_in[pos]] = xarea[pos];
 	      pos++;
 	    }
-- 
2.43.0


From 9c7a25f25a4d67c945670ecbab72c19fc905e5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:00 +0000
Subject: [PATCH 125/140] fix: make_remap_file compares the output size of the
 second tile with the first

---
 src/cubic_utils/make_remap_file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cubic_utils/make_remap_file.c b/src/cubic_utils/make_remap_file.c
index 51b5d8b..8aac281 100644
--- a/src/cubic_utils/make_remap_file.c
+++ b/src/cubic_utils/make_remap_file.c
@@ -294,7 +294,7 @@ int main(int argc, char* argv[])
     if(nx_out%2) mpp_error("make_remap_file: the size of dimension nx in output grid should be even (on supergrid)");
     if(ny_out%2) mpp_error("make_remap_file: the size of dimension ny in output grid should be even (on supergrid)");
     /* Assume all the tiles have the same size */
-    if(n>1 && (nx_out != 2*ni_out || ny_out != 2*nj_out)) mpp_error("make_remap_file: all the tiles should have same grid size");
+    if(n>0 && (nx_out != 2*ni_out || ny_out != 2*nj_out)) mpp_error("make_remap_file: all the tiles should have same grid size");
     ni_out = nx_out/2;
     nj_out = ny_out/2;
     nxp_out = nx_out+1;
-- 
2.43.0


From 77f913b164a8d4b3c71b64a6de1a42255814db49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:17 +0000
Subject: [PATCH 126/140] fix: make_remap_file has room for the whole command
 line in the history

---
 src/cubic_utils/make_remap_file.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cubic_utils/make_remap_file.c b/src/cubic_utils/make_remap_file.c
index 8aac281..ec0377c 100644
--- a/src/cubic_utils/make_remap_file.c
+++ b/src/cubic_utils/make_remap_file.c
@@ -118,7 +118,7 @@ int main(int argc, char* argv[])
   char    *remap_file = NULL;
   char    interp_method[STRING] = "conserve_order1";
 
-  char    history[512];
+  char    *history = NULL;
   char remap_file_base[STRING];
   int remap_method;
   int c, option_index, n;
@@ -189,6 +189,9 @@ int main(int argc, char* argv[])
   /* define history to be the history in the grid file */
   {
     int i;
+    size_t size = strlen(argv[0])+1;
+    for(i=1;i<argc;i++) size += strlen(argv[i])+1;
+    history = (char *)malloc(size);
     strcpy(history,argv[0]);
 
     for(i=1;i<argc;i++) {
-- 
2.43.0


From d14d28193ef727b7ebf32af6d149f17dbe80e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:22 +0000
Subject: [PATCH 127/140] fix: fregrid: --check_conserve: input total of a
 summed field with cell measures

The remapping adds the values of a field with cell_methods sum whether or
not it names cell measures; the input total of --check_conserve multiplied
them by the area.
---
 src/fre-grid/conserve_interp.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fre-grid/conserve_interp.c b/src/fre-grid/conserve_interp.c
index c726e05..cdbc8d7 100644
--- a/src/fre-grid/conserve_interp.c
+++ b/src/fre-grid/conserve_interp.c
@@ -889,16 +889,16 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
       ny1  = grid_in[n].ny;
 
 
-      if( cell_measures ) {
+      if ( cell_methods == CELL_METHODS_SUM ) {
         for(j=0; j<ny1; j++) for(i=0; i<nx1; i++) {
-  	  dd = field_in[n].data[(j+halo)*(nx1+2*halo)+i+halo];
-	  if(dd != missing) gsum_in += dd*field_in[n].area[j*nx1+i];
+	  dd = field_in[n].data[(j+halo)*(nx1+2*halo)+i+halo];
+	  if(dd != missing) gsum_in += dd;
         }
       }
-      else if ( cell_methods == CELL_METHODS_SUM ) {
+      else if( cell_measures ) {
         for(j=0; j<ny1; j++) for(i=0; i<nx1; i++) {
-	  dd = field_in[n].data[(j+halo)*(nx1+2*halo)+i+halo];
-	  if(dd != missing) gsum_in += dd;
+  	  dd = field_in[n].data[(j+halo)*(nx1+2*halo)+i+halo];
+	  if(dd != missing) gsum_in += dd*field_in[n].area[j*nx1+i];
         }
       }
       else {
-- 
2.43.0


From e153febb5ef41a62e537f7783dc781840f92bd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:18 +0000
Subject: [PATCH 128/140] fix: split_ncvars.pl keeps the existing output when
 the concatenation fails

The output of the files before was moved away, and deleted even when ncrcat
did not write the new output.
---
 src/split_ncvars/split_ncvars.pl.in | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/split_ncvars/split_ncvars.pl.in b/src/split_ncvars/split_ncvars.pl.in
index 3765783..91f130e 100755
--- a/src/split_ncvars/split_ncvars.pl.in
+++ b/src/split_ncvars/split_ncvars.pl.in
@@ -388,7 +388,12 @@ foreach my $file (@ifiles) {
             print "ncrcat $odir/.split_ncvars.$$.tmp.nc $tmp_var_filename $output\n"
                 if $Opt{VERBOSE} > 0;
             system("$ncrcat -h $odir/.split_ncvars.$$.tmp.nc $tmp_var_filename $output");
-            $ncstatus += $?;
+            if ($?) {
+                $ncstatus += $?;
+
+                # keep what was there
+                system("mv -f $odir/.split_ncvars.$$.tmp.nc $output");
+            }
             print "rm -f $odir/.split_ncvars.$$.tmp.nc $tmp_var_filename\n" if $Opt{VERBOSE} > 2;
             system("rm -f $odir/.split_ncvars.$$.tmp.nc $tmp_var_filename");
         }
-- 
2.43.0


From 12803869f3e13cec3c0b6da9335f15852af0a3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:36 +0000
Subject: [PATCH 129/140] fix: split_ncvars.pl --cmip edits the attributes of a
 vertical dimension under its new name

The dimension plev19 (levhalf) is renamed to plev (lev) before ncatted runs
with options for its old name; ncatted then failed and none of the attributes
of the file were edited.
---
 src/split_ncvars/split_ncvars.pl.in | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/split_ncvars/split_ncvars.pl.in b/src/split_ncvars/split_ncvars.pl.in
index 91f130e..c347a83 100755
--- a/src/split_ncvars/split_ncvars.pl.in
+++ b/src/split_ncvars/split_ncvars.pl.in
@@ -465,10 +465,12 @@ foreach my $file (@ifiles) {
                         if ( $dim =~ /^plev\d+/ ) {
                             print "ncrename -h -d $dim,plev -v $dim,plev $tmp_var_filename\n";
                             system("ncrename -h -d $dim,plev -v $dim,plev $tmp_var_filename");
+                            s/^(-a \w+),$dim,/$1,plev,/ for @ncatted_opts;
                         }
                         elsif ( $dim eq "levhalf" ) {
                             print "ncrename -h -d $dim,lev -v $dim,lev $tmp_var_filename\n";
                             system("ncrename -h -d $dim,lev -v $dim,lev $tmp_var_filename");
+                            s/^(-a \w+),$dim,/$1,lev,/ for @ncatted_opts;
 
                             # also rename the formula terms
                             if ( get_variable_att( $vdump, $dim, "formula_terms" ) eq
-- 
2.43.0


From d075ac1e0566cf33ac72df3b36f9a4adf830302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:12 +0000
Subject: [PATCH 130/140] fix: split_ncvars.pl --cmip takes the calendar from
 calendar_type

The new attribute calendar was empty.
---
 src/split_ncvars/split_ncvars.pl.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/split_ncvars/split_ncvars.pl.in b/src/split_ncvars/split_ncvars.pl.in
index c347a83..677710d 100755
--- a/src/split_ncvars/split_ncvars.pl.in
+++ b/src/split_ncvars/split_ncvars.pl.in
@@ -849,7 +849,7 @@ sub cleanup_dim_atts {
         push @opts, "-a calendar,$dim,m,c,\"$calc\"" if ( $cal ne $calc );
     }
     elsif ($calt) {
-        my $calc = lc($cal);
+        my $calc = lc($calt);
         push @opts, "-a calendar,$dim,c,c,\"$calc\"";
     }
     push @opts, "-a calendar_type,$dim,d,," if $calt;
-- 
2.43.0


From 3efe0fbe38d593809560c5adce6ce5c61c93a302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:27 +0000
Subject: [PATCH 131/140] fix: split_ncvars.pl looks up the dimensions of the
 variable, not of one whose name ends alike

The dimensions of temp were those of air_temp when that comes first in the file.
---
 src/split_ncvars/split_ncvars.pl.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/split_ncvars/split_ncvars.pl.in b/src/split_ncvars/split_ncvars.pl.in
index 677710d..8089098 100755
--- a/src/split_ncvars/split_ncvars.pl.in
+++ b/src/split_ncvars/split_ncvars.pl.in
@@ -597,7 +597,7 @@ sub get_variable_dimensions {
     }
 
     # Compare the cartesian coords to those of the variables
-    if ( $dump =~ /\t.*$var\((.+)\)/ ) {
+    if ( $dump =~ /\t\w+ $var\((.+)\)/ ) {
         @var_dims{ split /,\s/, $1 } = ();
         @coords = grep { exists $cartesian_coords{$_} } keys %var_dims;
     }
@@ -612,7 +612,7 @@ sub get_vertical_dimensions {
     my $dump = shift;
     my $var  = shift;
     my @vdims;
-    if ( $dump =~ /\t.*$var\((.+)\)/ ) {
+    if ( $dump =~ /\t\w+ $var\((.+)\)/ ) {
         foreach my $dim ( split /,\s/, $1 ) {
             if ( $dump =~ /\t\w+ $dim\(.+\)/ ) {
                 push @vdims, $dim if ( $dump =~ /\t\t$dim:(axis|cartesian_axis) = "Z" ;/ );
-- 
2.43.0


From 92ae9b3e53a3628b3459ab3aa5d24a513e5e1670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:28 +0000
Subject: [PATCH 132/140] fix: mppnccombine -a and -x do not remove an existing
 output file when an input is missing

---
 src/mpp-nccombine/mppnccombine.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index fd30784..52a3450 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -203,6 +203,16 @@ static const char version[] = PACKAGE_VERSION;
 
 static unsigned long estimated_maxrss = 0; /* see option: -x */
 static int mem_dry_run = 0;                /* set if -x option is used */
+static int append_existing = 0;            /* set if -a option is used */
+
+/* Remove the output file of a run that failed, unless this run did not create
+ * it */
+static void
+remove_output (const char *outfilename)
+{
+  if (!append_existing && !mem_dry_run)
+    unlink (outfilename);
+}
 
 static inline void
 check_mem_usage (void)
@@ -310,7 +320,7 @@ main (int argc, char *argv[])
           mem_dry_run = 1;
         }
       else if (!strcmp (argv[a], "-a"))
-        appendnc = 1;
+        appendnc = append_existing = 1;
       else if (!strcmp (argv[a], "-r"))
         removein = 1;
       else if (!strcmp (argv[a], "-f"))
@@ -510,7 +520,7 @@ main (int argc, char *argv[])
                         printf ("ERROR: missing at least %s from the input "
                                 "file set.  Exiting.\n",
                                 infilename);
-                        unlink (outfilename);
+                        remove_output (outfilename);
                         return 9;
                       }
                     else
@@ -557,7 +567,7 @@ main (int argc, char *argv[])
             if (num_infiles_used == 0)
               {
                 fprintf (stderr, "Warning: No input file found in range.\n");
-                unlink (outfilename);
+                remove_output (outfilename);
                 exit (1);
               }
             /* free the memory before reading the next block */
@@ -609,7 +619,7 @@ main (int argc, char *argv[])
                           printf ("ERROR: missing at least %s from the input "
                                   "file set.  Exiting.\n",
                                   infilename);
-                          unlink (outfilename);
+                          remove_output (outfilename);
                           return 9;
                         }
                       else
@@ -693,7 +703,7 @@ main (int argc, char *argv[])
                     printf ("ERROR: missing at least %s from the input file "
                             "set.  Exiting.\n",
                             argv[a]);
-                    unlink (outfilename);
+                    remove_output (outfilename);
                     return 9;
                   }
                 else
-- 
2.43.0


From b8ae6e956078246aa40ea89e04b3136c242f5f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:01 +0000
Subject: [PATCH 133/140] fix: mppnccombine -a appends the data of the input
 files to the output file instead of dropping them

---
 src/mpp-nccombine/mppnccombine.c | 82 +++++++++++++++++++++++++++++++-
 1 file changed, 81 insertions(+), 1 deletion(-)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 52a3450..18d0e49 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -186,6 +186,7 @@ int process_file (char *, unsigned char, struct fileinfo *, char *, int *,
                   unsigned char, int, int, int);
 int process_vars (struct fileinfo *, struct fileinfo *, unsigned char, int *,
                   int *, int *, int, int, int, unsigned char, unsigned char);
+int same_structure (struct fileinfo *, int);
 int flush_decomp (struct fileinfo *, int, int, int, unsigned char);
 void print_debug (struct fileinfo *, unsigned char);
 char *nc_type_to_str (nc_type);
@@ -204,6 +205,7 @@ static const char version[] = PACKAGE_VERSION;
 static unsigned long estimated_maxrss = 0; /* see option: -x */
 static int mem_dry_run = 0;                /* set if -x option is used */
 static int append_existing = 0;            /* set if -a option is used */
+static long append_nrecs = 0;              /* records already in the output */
 
 /* Remove the output file of a run that failed, unless this run did not create
  * it */
@@ -476,6 +478,11 @@ main (int argc, char *argv[])
               free (ncoutfile);
               return (1);
             }
+          ncoutfile->recdim = (-1);
+          ncinquire (ncoutfile->ncfid, NULL, NULL, NULL, &ncoutfile->recdim);
+          if (ncoutfile->recdim != (-1))
+            ncdiminq (ncoutfile->ncfid, ncoutfile->recdim, NULL,
+                      &append_nrecs);
         }
     }
 
@@ -1078,7 +1085,7 @@ process_file (char *ncname, unsigned char appendnc, struct fileinfo *ncoutfile,
 
       /* Save some information for the output file */
       /* This only needs to be done once per output file */
-      if ((!appendnc) && (!mem_dry_run))
+      if ((!appendnc || append_existing) && (!mem_dry_run))
         {
           ncoutfile->varndims[v] = ncinfile->varndims[v];
           for (d = 0; d < ncinfile->ndims; d++)
@@ -1088,9 +1095,25 @@ process_file (char *ncname, unsigned char appendnc, struct fileinfo *ncoutfile,
           ncoutfile->vardecomp[v] = ncinfile->vardecomp[v];
           strcpy (ncoutfile->varname[v], ncinfile->varname[v]);
           ncoutfile->varmiss[v] = 0;
+          if (append_existing && missing
+              && ncattget (ncinfile->ncfid, v, "missing_value",
+                           (void *)(ncoutfile->varmissval[v]))
+                     != (-1))
+            ncoutfile->varmiss[v] = 1;
         }
     }
 
+  /* Data can only be appended to a file of the same variables */
+  if (append_existing && (!mem_dry_run)
+      && !same_structure (ncinfile, ncoutfile->ncfid))
+    {
+      fprintf (stderr,
+               "Error: the variables of \"%s\" are not those of the output "
+               "file!\n",
+               ncname);
+      exit (1);
+    }
+
   /* If the output netCDF file was just created then define its structure */
   if ((!appendnc) && (!mem_dry_run))
     {
@@ -1285,6 +1308,40 @@ process_file (char *ncname, unsigned char appendnc, struct fileinfo *ncoutfile,
   return (ncinfileerror);
 }
 
+/* Has an output file the variables and the full dimensions of an input file?
+ */
+int
+same_structure (struct fileinfo *ncinfile, int outid)
+{
+  int v, d;
+  int nvars, recdim;
+  char name[MAX_NC_NAME];
+  nc_type type;
+  int ndims, dims[MAX_NC_DIMS];
+  long size;
+
+  if (ncinquire (outid, NULL, &nvars, NULL, &recdim) == (-1)
+      || nvars != ncinfile->nvars || recdim != ncinfile->recdim)
+    return (0);
+  for (v = 0; v < nvars; v++)
+    {
+      if (ncvarinq (outid, v, name, &type, &ndims, dims, NULL) == (-1)
+          || strcmp (name, ncinfile->varname[v])
+          || type != ncinfile->datatype[v] || ndims != ncinfile->varndims[v])
+        return (0);
+      for (d = 0; d < ndims; d++)
+        {
+          if (dims[d] != ncinfile->vardim[v][d]
+              || ncdiminq (outid, dims[d], name, &size) == (-1)
+              || strcmp (name, ncinfile->dimname[dims[d]]))
+            return (0);
+          if (dims[d] != recdim && size != ncinfile->dimfullsize[dims[d]])
+            return (0);
+        }
+    }
+  return (1);
+}
+
 /* Decomposed variables from an input file and record will be written to memory
  */
 /* non-decomposed variables will be written to the output file */
@@ -1298,6 +1355,7 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
   void *values = NULL;                              /* Current data values */
   long instart[MAX_NC_DIMS], outstart[MAX_NC_DIMS]; /* Data array sizes */
   long count[MAX_NC_DIMS];                          /*        "         */
+  long fullstart[MAX_NC_DIMS], fullcount[MAX_NC_DIMS]; /* Sizes in the output */
   long long recsize;     /* Decomposed size of one record of a variable */
   long long recfullsize; /* Non-decomposed size of one record of a variable */
   int varrecdim;         /* Variable's record dimension */
@@ -1591,6 +1649,28 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
                           = *((double *)(ncoutfile->varmissval[v]));
                     break;
                   }
+              /* Keep what the output file holds already */
+              if (append_existing && (varrecdim == (-1) || r < append_nrecs))
+                {
+                  for (d = 0; d < ncinfile->varndims[v]; d++)
+                    {
+                      fullstart[d] = (d == varrecdim) ? r : 0;
+                      fullcount[d]
+                          = (d == varrecdim)
+                                ? 1
+                                : ncinfile->dimfullsize[ncinfile->vardim[v][d]];
+                    }
+                  if (ncvarget (ncoutfile->ncfid, v, fullstart, fullcount,
+                                varbuf[(r % (*bf))][v])
+                      == (-1))
+                    {
+                      fprintf (stderr,
+                               "Error: cannot read variable \"%s\"'s values "
+                               "from the output file!\n",
+                               ncinfile->varname[v]);
+                      return (1);
+                    }
+                }
             }
           if (varbuf[(r % (*bf))][v] == NULL)
             {
-- 
2.43.0


From 73a32ba005e6c5bc6f1418b371f212f87ad67f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:00 +0000
Subject: [PATCH 134/140] fix: check_mask reports a mask table it could not
 write

---
 src/check-mask/check_mask.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/check-mask/check_mask.c b/src/check-mask/check_mask.c
index 61ee215..14be8e8 100644
--- a/src/check-mask/check_mask.c
+++ b/src/check-mask/check_mask.c
@@ -780,6 +780,7 @@ void check_ocean_mask(int nx, int ny, const double *wet_in, int cyclic_x, int cy
 
 	sprintf(file, "mask_table.%d.%dx%d", nmask, layout[0], layout[1]);
 	fp=fopen(file, "w");
+	if(!fp) mpp_error("check_mask: can not open the mask table file for writing");
 	fprintf(fp, "%d\n", nmask);
 	fprintf(fp, "%d, %d\n", layout[0], layout[1]);
 	for(n=0; n<nmask; n++) {
@@ -790,7 +791,7 @@ void check_ocean_mask(int nx, int ny, const double *wet_in, int cyclic_x, int cy
 	printf("                      specify ocean_model_nml/ice_model_nml/atmos_model_nml/land_model/nml \n");
 	printf("                      variable mask_table with the mask_table created here.\n");
 	printf("                      Also specify the layout variable in each namelist using corresponding layout\n"); 
-	fclose(fp);
+	if(ferror(fp) | fclose(fp)) mpp_error("check_mask: error in writing the mask table file");
       }
     }
   }
@@ -893,6 +894,7 @@ void get_land_mosaic(const char *grid_file, char *land_mosaic, char *land_mosaic
 
     sprintf(file, "mask_table.%d.%dx%d", nmask, layout[0], layout[1]);
     fp=fopen(file, "w");
+    if(!fp) mpp_error("check_mask: can not open the mask table file for writing");
     fprintf(fp, "%d\n", nmask);
     fprintf(fp, "%d, %d, %d\n", layout[0], layout[1], ntiles);
     for(n=0; n<nmask; n++) {
@@ -902,7 +904,7 @@ void get_land_mosaic(const char *grid_file, char *land_mosaic, char *land_mosaic
     printf("\nNOTE from check_mask: The following is for using model source code with version Ulm or newer,\n");
     printf("                      specify land_model_nml variable mask_table with the mask_table created here.\n");
     printf("                      Also specify the layout in land_model_nml using corresponding layout\n"); 
-    fclose(fp);
+    if(ferror(fp) | fclose(fp)) mpp_error("check_mask: error in writing the mask table file");
   }
   
 
-- 
2.43.0


From f401534cdb74ecd6b5a3df3e84979530a59f81b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:00 +0000
Subject: [PATCH 135/140] fix: split_ncvars.pl exits with an error when it can
 not read an input file

---
 src/split_ncvars/split_ncvars.pl.in | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/split_ncvars/split_ncvars.pl.in b/src/split_ncvars/split_ncvars.pl.in
index 8089098..8f41b66 100755
--- a/src/split_ncvars/split_ncvars.pl.in
+++ b/src/split_ncvars/split_ncvars.pl.in
@@ -182,8 +182,12 @@ foreach my $file (@ifiles) {
         $file = "$Opt{idir}/$file";
     }
 
-    print STDERR "Unable to read $file, skipping\n" and next unless -r $file;
-    my $dump = qx{$ncdump -h $file};
+    my $dump = -r $file ? qx{$ncdump -h $file} : "";
+    if ( $dump eq "" ) {
+        print STDERR "Unable to read $file, skipping\n";
+        $ncstatus = 1;
+        next;
+    }
 
     # generate variable list (if not user supplied)
     if ( !@varlist ) {
-- 
2.43.0


From 3dba2ff9924fa58b19413f4a6af92af531692804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:53 +0000
Subject: [PATCH 136/140] fix: cp_river_vars no longer writes past the end of
 the edge coordinates

---
 tools/simple_hydrog/postp/cp_river_vars.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/simple_hydrog/postp/cp_river_vars.F90 b/tools/simple_hydrog/postp/cp_river_vars.F90
index 6fd3fcb..5ca4e2d 100644
--- a/tools/simple_hydrog/postp/cp_river_vars.F90
+++ b/tools/simple_hydrog/postp/cp_river_vars.F90
@@ -221,7 +221,7 @@ do n= 1,ntiles
            endif
            count(1)= jdp1
            rcode= nf_get_vara_double (ncid, latid, start, count, latb(1,:,n))
-           do i= 2,idp1
+           do i= 2,id
               latb(i,:,:)= latb(1,:,:)
            enddo
        endif
@@ -257,7 +257,7 @@ do n= 1,ntiles
            endif
            count(1)= idp1
            rcode= nf_get_vara_double (ncid, lonid, start, count, lonb(:,1,n))
-           do j= 1,jdp1
+           do j= 2,jd
               lonb(:,j,:)= lonb(:,1,:)
            enddo
         endif
-- 
2.43.0


From 7bc8333d96ce26edb17da9ec5f7552ef5232cfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:53 +0000
Subject: [PATCH 137/140] fix: cp_river_vars and rmv_parallel_rivers have room
 for every outlet

---
 tools/simple_hydrog/postp/cp_river_vars.F90       | 12 +++---------
 tools/simple_hydrog/rmvpr/rmv_parallel_rivers.F90 |  6 +++---
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/tools/simple_hydrog/postp/cp_river_vars.F90 b/tools/simple_hydrog/postp/cp_river_vars.F90
index 5ca4e2d..000f310 100644
--- a/tools/simple_hydrog/postp/cp_river_vars.F90
+++ b/tools/simple_hydrog/postp/cp_river_vars.F90
@@ -395,15 +395,9 @@ allocate (cos_lat(idp2,jdp2,ntiles), sin_lat(idp2,jdp2,ntiles))
 allocate (ibas(idp2,jdp2,ntiles), basin(idp2,jdp2,ntiles), idx_to_grd(idp2,jdp2,ntiles))
 allocate (rivlen(idp2,jdp2,ntiles))
 
-if (ntiles == 1) then
-    allocate (idx_to(idp2*jdp2/4), bas_area(idp2*jdp2/4))
-    allocate (lat_to(idp2*jdp2/4), lon_to(idp2*jdp2/4), ilo(idp2*jdp2/4))
-    allocate (avlat(idp2*jdp2/4), avlon(idp2*jdp2/4))
-else
-    allocate (idx_to(idp2*jdp2), bas_area(idp2*jdp2))
-    allocate (lat_to(idp2*jdp2), lon_to(idp2*jdp2), ilo(idp2*jdp2))
-    allocate (avlat(idp2*jdp2), avlon(idp2*jdp2))
-endif
+allocate (idx_to(idp2*jdp2*ntiles), bas_area(idp2*jdp2*ntiles))
+allocate (lat_to(idp2*jdp2*ntiles), lon_to(idp2*jdp2*ntiles), ilo(idp2*jdp2*ntiles))
+allocate (avlat(idp2*jdp2*ntiles), avlon(idp2*jdp2*ntiles))
 
 ! okay, now set up the 'halo' for each tile
 !   get edge data for tocell, lat, and lon
diff --git a/tools/simple_hydrog/rmvpr/rmv_parallel_rivers.F90 b/tools/simple_hydrog/rmvpr/rmv_parallel_rivers.F90
index 400b237..b8396ab 100644
--- a/tools/simple_hydrog/rmvpr/rmv_parallel_rivers.F90
+++ b/tools/simple_hydrog/rmvpr/rmv_parallel_rivers.F90
@@ -393,9 +393,9 @@ allocate (cos_lat(idp4,jdp4,ntiles), sin_lat(idp4,jdp4,ntiles))
 allocate (tocell_new(idp4,jdp4,ntiles))
 allocate (ibas(idp4,jdp4,ntiles), idx_to_grd(idp4,jdp4,ntiles))
 
-allocate (idx_to(idp4*jdp4), bas_area(idp4*jdp4))
-allocate (lat_to(idp4*jdp4), lon_to(idp4*jdp4), ilo(idp4*jdp4))
-allocate (avlat(idp4*jdp4), avlon(idp4*jdp4))
+allocate (idx_to(idp4*jdp4*ntiles), bas_area(idp4*jdp4*ntiles))
+allocate (lat_to(idp4*jdp4*ntiles), lon_to(idp4*jdp4*ntiles), ilo(idp4*jdp4*ntiles))
+allocate (avlat(idp4*jdp4*ntiles), avlon(idp4*jdp4*ntiles))
 
 allocate (suba_temp(idp4,jdp4,ntiles), travel_temp(idp4,jdp4,ntiles))
 allocate (celll_temp(idp4,jdp4,ntiles), basin_temp(idp4,jdp4,ntiles))
-- 
2.43.0


From e6be69fc4d49b80de55e877254d8ad8ac4ce93c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:53 +0000
Subject: [PATCH 138/140] fix: cp_river_vars measures the length of a river on
 the tile it is on

---
 tools/simple_hydrog/postp/cp_river_vars.F90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/simple_hydrog/postp/cp_river_vars.F90 b/tools/simple_hydrog/postp/cp_river_vars.F90
index 000f310..179ad5f 100644
--- a/tools/simple_hydrog/postp/cp_river_vars.F90
+++ b/tools/simple_hydrog/postp/cp_river_vars.F90
@@ -566,10 +566,10 @@ do n= 1,ntiles
 !                        clen= acos(sin_lat(i,j,n)*sin_lat(ip,jp,n) + &
 !                         cos_lat(i,j,n)*cos_lat(ip,jp,n)*cos((abs(lon(i,j,n)-lon(ip,jp,n)))*dtr))* &
 !                         erad*1000.
-                        dlat= (lat(i1,j1,n)-lat(ip,jp,n))*dtr
-                        dlon= (lon(i1,j1,n)-lon(ip,jp,n))*dtr
+                        dlat= (lat(i1,j1,n1)-lat(ip,jp,n1))*dtr
+                        dlon= (lon(i1,j1,n1)-lon(ip,jp,n1))*dtr
                         clen=      2.*asin( sqrt( (sin(dlat*0.5))**2. + &
-                           cos_lat(i1,j1,n)*cos_lat(ip,jp,n)*(sin(dlon*0.5))**2. ) )* &
+                           cos_lat(i1,j1,n1)*cos_lat(ip,jp,n1)*(sin(dlon*0.5))**2. ) )* &
                            erad*1000.
                     else
                         clen= 0.
-- 
2.43.0


From cc9c2a81144719f8378aea921108b33e3762103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:57 +0000
Subject: [PATCH 139/140] fix: cr_lake_files interpolates the water bodies
 instead of writing uninitialised memory

---
 tools/simple_hydrog/lakes/horiz_interp.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/simple_hydrog/lakes/horiz_interp.F90 b/tools/simple_hydrog/lakes/horiz_interp.F90
index c7ff1c3..2410a5b 100644
--- a/tools/simple_hydrog/lakes/horiz_interp.F90
+++ b/tools/simple_hydrog/lakes/horiz_interp.F90
@@ -455,6 +455,8 @@ contains
 
     select case(Interp%interp_method)
     case(BILINEAR)
+      call horiz_interp_bilinear(Interp, data_in, data_out, verbose, mask_in, mask_out,&
+          & missing_value, missing_permit, new_missing_handle)
     case default
       call mpp_error(FATAL,'interp_method should be "bilinear".')
     end select
-- 
2.43.0


From be15d8986cc8ee95ceddf6e474a3419c67fbe5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:00 +0000
Subject: [PATCH 140/140] fix: cr_lake_files reads water body maps from either
 pole and from Greenwich

---
 tools/simple_hydrog/lakes/cr_lake_files.F90 | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/tools/simple_hydrog/lakes/cr_lake_files.F90 b/tools/simple_hydrog/lakes/cr_lake_files.F90
index d75131a..2a45770 100644
--- a/tools/simple_hydrog/lakes/cr_lake_files.F90
+++ b/tools/simple_hydrog/lakes/cr_lake_files.F90
@@ -61,7 +61,7 @@ real :: travel_thresh
 character(len=8)   :: var
 character(len=40)  :: var_units
 character(len=100) :: fname, glcc_file
-logical :: interp_glcc_to_1deg
+logical :: interp_glcc_to_1deg, flip_lat, shift_lon
 
 integer, dimension (maxdims)           :: start, count, dimids, ndims
 integer, dimension (idl,jdl)           :: idat
@@ -136,6 +136,7 @@ endif
 start= 1 ;  count= 1 ;  count(1)= jdl
 rcode= nf_get_vara_double (ncid, latid, start, count, latl)
 
+flip_lat= latl(1) > 89.
 if (latl(1) > -89.) then
 !    write (6,*) "WARNING: glcc lats start at ", latl(1)
     if (latl(1) > 89.) then
@@ -171,6 +172,7 @@ endif
 start= 1 ;  count= 1 ;  count(1)= idl
 rcode= nf_get_vara_double (ncid, lonid, start, count, lonl)
 
+shift_lon= lonl(1) < -179.
 if (lonl(1) < -179.) then
 !    write (6,*) "WARNING: glcc lons start at ", lonl(1)
 !    write (6,*) "  -- shift lons to start at zero -- "
@@ -255,16 +257,13 @@ do n= 1,nvar_glcc
 
 ! flip lats and lons, scale by scale factor
    do j= 1,jdl
-      j1= jdlp1-j
-!      write (6,*) 'j= ', j, j1
-      do i= 1,idl/2
-         if (idat(i+idl/2,j1) /= fill_val) then
-             wbdat(i,j,n)= real(idat(i+idl/2,j1))*scale
-         endif
-      enddo
-      do i= idl/2+1,idl
-         if (idat(i-idl/2,j1) /= fill_val) then
-             wbdat(i,j,n)= real(idat(i-idl/2,j1))*scale
+      j1= j
+      if (flip_lat) j1= jdlp1-j
+      do i= 1,idl
+         i1= i
+         if (shift_lon) i1= mod(i-1+idl/2,idl) + 1
+         if (idat(i1,j1) /= fill_val) then
+             wbdat(i,j,n)= real(idat(i1,j1))*scale
          endif
       enddo
    enddo
-- 
2.43.0


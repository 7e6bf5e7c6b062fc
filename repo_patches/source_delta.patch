From 4b0979316b5ad8212b74e4a2020fe2609e5be8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 01/59] fix: read single raw files when the caller names format
 version 0.91

_process_gemlog_data rejected version '0.91' as invalid although it is a
supported format, so _read_single(version='0.91') (used by gem_cat) failed.
---
 gemlog/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index f1aad87..1e91b38 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -842,7 +842,7 @@ def _read_single(filename, offset=0, require_gps = True, version = '0.9'):
 
 def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
     ## figure out what settings to used according to the raw file format version
-    if version in ['1.10', '0.9', '0.85C']:
+    if version in ['1.10', '0.91', '0.9', '0.85C']:
         rollover = 2**13
         M_cols = ['millis', 'batt', 'temp', 'A2', 'A3',
                   'maxWriteTime', 'minFifoFree', 'maxFifoUsed',
@@ -904,7 +904,7 @@ def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
 
 
     # process data (version-dependent)
-    if version in ['1.10', '0.9', '0.85C']: # don't integrate the data if version is 0.8, 0.85
+    if version in ['1.10', '0.91', '0.9', '0.85C']: # don't integrate the data if version is 0.8, 0.85
         D['ADC'] = D['ADC'].astype(float).cumsum()
 
     ## gps stuff
-- 
2.43.0


From c18b44b09b199485324127e2704d798ef6c9b58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 02/59] fix: keep fractional GPS millisecond counts in the
 pandas reader

Formats 0.91 and later record PPS counts with two decimals; casting them to
int shifted GPS times by up to a millisecond relative to the compiled reader.
---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 1e91b38..044319f 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -778,7 +778,7 @@ def _read_with_pandas(filename, require_gps = True):
     df = df.loc[df.loc[:,'linetype'].isin(['D', 'M', 'G']), :]
     ## most of the runtime is before here
     # unroll the ms rollover sawtooth
-    df['millis-sawtooth'] = np.where(df['linetype'] == 'D',df[0].str[1:],df[1]).astype(int)
+    df['millis-sawtooth'] = np.where(df['linetype'] == 'D',df[0].str[1:],df[1]).astype(float)
     return df
 
 def _read_single(filename, offset=0, require_gps = True, version = '0.9'):
-- 
2.43.0


From 110aaaaf41fe50087f460db146a247e8f0730f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:54 +0000
Subject: [PATCH 03/59] fix: skip damaged lines in raw files instead of filling
 them from earlier lines

---
 gemlog/parsers.pyx | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/gemlog/parsers.pyx b/gemlog/parsers.pyx
index 030908f..9518fc8 100644
--- a/gemlog/parsers.pyx
+++ b/gemlog/parsers.pyx
@@ -4,6 +4,7 @@ Cython-based file parsers.
 
 import numpy as np
 from libc.stdio cimport fopen, fclose, fgets, FILE, sscanf
+from libc.string cimport strlen
 
 
 def parse_gemfile(filename, n_row = 1560000):
@@ -38,6 +39,8 @@ def parse_gemfile(filename, n_row = 1560000):
     cdef char line[256]
     cdef char* read
     cdef char line_type = 0
+    # True while reading the remainder of a line too long for the buffer
+    cdef bint continuation = False, is_continuation = False
 
     cdef int n_matched = 0
     # D placeholders
@@ -77,6 +80,13 @@ def parse_gemfile(filename, n_row = 1560000):
             # EOF
             break
 
+        # a (corrupt) line that overfills the buffer comes in several pieces; its
+        # remainder must not be mistaken for a new line
+        is_continuation = continuation
+        continuation = (strlen(line) == sizeof(line) - 1) and (line[sizeof(line) - 2] != 10) # ord('\n')
+        if is_continuation:
+            continue
+
         line_type = line[0]
         if (line_type >= 97) and (line_type <= 122): # ord('a'), ord('z')
             if (line[1] < 97) or(line[1] > 122):
@@ -96,18 +106,22 @@ def parse_gemfile(filename, n_row = 1560000):
             if n_matched == 1: # failed to read the 2-element format, try just 1 element
                 view[line_number, 0] = DmsSamp
                 DmsSamp = (prev_dD_millis + 10) % (2**13)
-            else: # n_matched == 2
+            elif n_matched == 2:
                 view[line_number, 0] = ADC
+            else: # no numbers: damaged line
+                continue
             millis_view[line_number] = DmsSamp
             prev_dD_millis = DmsSamp
 
         elif line_type == 71:  # ord('G') == 71
             # G,msPPS,msLag,yr,mo,day,hr,min,sec,lat,lon
             # G,8171,70,2020,6,20,5,21,22.0,43.62226,-116.20594
-            n_matched = sscanf(line + 2,
-                               "%lf,%lf,%d,%d,%d,%d,%d,%lf,%lf,%lf",
+            n_matched = sscanf(line + 1,
+                               ",%lf,%lf,%d,%d,%d,%d,%d,%lf,%lf,%lf",
                                &msPPS, &msLag, &yr, &mo, &day, &hr, &mn,
                                &sec, &lat, &lon)
+            if n_matched != 10: # damaged line: the missing values must not be left over from an earlier line
+                continue
             view[line_number, 0] = msLag
             view[line_number, 1] = yr
             view[line_number, 2] = mo
@@ -123,11 +137,13 @@ def parse_gemfile(filename, n_row = 1560000):
             # M,ms,batt(V),temp(C),A2,A3,maxLag,minFree,maxUsed,maxOver,
             # gpsFlag,freeStack1,freeStackIdle
             # M,8001,3.02,22.1,1.412,2.052,94,66,9,0,0,57,86
-            n_matched = sscanf(line + 2,
-                               "%lf,%lf,%lf,%lf,%lf,%d,%d,%d,%d,%d,%d,%d",
+            n_matched = sscanf(line + 1,
+                               ",%lf,%lf,%lf,%lf,%lf,%d,%d,%d,%d,%d,%d,%d",
                                &ms, &batt, &temp, &A2, &A3, &maxLag,
                                &minFree, &maxUsed, &maxOver, &gpsFlag,
                                &freeStack1, &freeStackIdle)
+            if n_matched != 12: # damaged line, as above
+                continue
             view[line_number, 0] = batt
             view[line_number, 1] = temp
             view[line_number, 2] = A2
-- 
2.43.0


From 116aa44ad6972de4775dc32baec8326bced62e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 04/59] fix: reject GPS fixes with missing fields

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 044319f..340f0a4 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -946,7 +946,7 @@ def _gps_in_bounds(G):
     bad_gps = False
     for key, (lo, hi) in limits.items():
         data = G[key]
-        bad_gps |= (data < lo) | (data > hi)
+        bad_gps |= ~((data >= lo) & (data <= hi)) # missing values are bad too
 
     # custom limits:
     bad_gps |= (
-- 
2.43.0


From 8160ccbcc7e73577da96c078a898c4fc96a4f324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 05/59] fix: drop raw lines without a millisecond count or a
 sample value

---
 gemlog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 340f0a4..457b6fd 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -859,6 +859,8 @@ def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
     else:
         raise CorruptRawFile('Invalid raw format version')
         
+    # lines cut short or garbled may lack a millisecond count
+    df = df.loc[np.isfinite(df['millis-sawtooth']),:].copy()
     # unroll the ms rollover sawtooth
     df['millis-stairstep'] = (df['millis-sawtooth'].diff() < -(rollover/2)).cumsum()
     df['millis-stairstep'] -= (df['millis-sawtooth'].diff() > (rollover/2)).cumsum()
@@ -899,7 +901,7 @@ def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
     M.columns = M_cols
 
     # now that columns aren't mixed dtype anymore, convert to numeric where possible
-    D = D.apply(pd.to_numeric)
+    D = D.apply(pd.to_numeric).dropna() # a line cut short has no sample value
     M = M.apply(pd.to_numeric)
 
 
-- 
2.43.0


From 88e470ec64fda8edd3b6675fa2a17d8f5479e50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:04 +0000
Subject: [PATCH 06/59] fix: drop raw lines with garbled values in old formats
 instead of refusing the file

---
 gemlog/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 457b6fd..d7e07d6 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -901,8 +901,9 @@ def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
     M.columns = M_cols
 
     # now that columns aren't mixed dtype anymore, convert to numeric where possible
-    D = D.apply(pd.to_numeric).dropna() # a line cut short has no sample value
-    M = M.apply(pd.to_numeric)
+    # (garbled values become nan); a garbled or cut-off data line has no sample value
+    D = D.apply(pd.to_numeric, errors = 'coerce').dropna()
+    M = M.apply(pd.to_numeric, errors = 'coerce')
 
 
     # process data (version-dependent)
@@ -915,7 +916,7 @@ def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
         G = grouper.get_group(Gkey)
         G = G[['millis-corrected'] + list(range(2, len(G_cols)+1))]
         G.columns = G_cols
-        G = G.apply(pd.to_numeric)
+        G = G.apply(pd.to_numeric, errors = 'coerce')
         
         # filter bad GPS data and combine into datetimes
         valid_gps = _gps_in_bounds(G)
-- 
2.43.0


From 06ff9e0a2f87417f7684cc760e435882a58ea60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:04 +0000
Subject: [PATCH 07/59] fix: read raw files that have no intact state-of-health
 lines

---
 gemlog/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index d7e07d6..303d377 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -889,7 +889,8 @@ def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
     if version in ['0.8', '0.85']:
         data_col = 2
     D = grouper.get_group(Dkey)
-    M = grouper.get_group(Mkey)
+    # a damaged file may have no intact state-of-health lines; its data are still good
+    M = grouper.get_group(Mkey) if (df['linetype'] == Mkey).any() else df.iloc[:0,:]
     #_breakpoint()
     # pick out columns of interest and rename
     D_cols = ['msSamp', 'ADC']
-- 
2.43.0


From df5c7db2d014e9d8254e1682237af5699cdb220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 08/59] fix: keep file times apart when a 0.8 or 0.85 counter
 restarts between files

---
 gemlog/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 303d377..ee43763 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1056,9 +1056,10 @@ def _read_several(fnList, version = 0.9, require_gps = True):
                 raise CorruptRawFile('Invalid raw file format version: ' + str(version))
             ## make sure the first millis is > startMillis
             if(L['data'][0,0] < startMillis):
-                L['metadata'].millis += 2**13
-                L['gps'].msPPS += 2**13
-                L['data'][:,0] += 2**13
+                rollover = 2**16 if str(version) in ['0.8', '0.85'] else 2**13
+                L['metadata'].millis += rollover
+                L['gps'].msPPS += rollover
+                L['data'][:,0] += rollover
             ## if the millis series is discontinuous, reject the file
             dMillis = np.diff(L['data'][:,0])
             if any(dMillis < 0) or any(dMillis > 1000):
-- 
2.43.0


From 5689a2ea06440b051b3912f834d1373802a32d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 09/59] fix: do not reject GPS fixes as outliers because of
 rounding errors

---
 gemlog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index ee43763..b41070d 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1201,7 +1201,9 @@ def _robust_regress(x, y, degree = 3, MAD = 0.01, z = 4, recursive_depth = np.in
     resid = y - np.polynomial.Polynomial(reg)(x)
 
     ## If any are found to be outliers, remove them and recalculate recursively.
-    outliers = np.abs(resid) > (z*np.std(resid))
+    ## Residuals below the GPS time resolution are rounding errors, not outliers; trimming by those
+    ## could remove every point of a near-perfect fit.
+    outliers = np.abs(resid) > max(z*np.std(resid), 1e-5)
     if not any(outliers):
         outliers = np.abs(resid) > MAD
     if any(outliers) and (recursive_depth > 0):
-- 
2.43.0


From 06196cc1e6aa86fb44d615592fdfd6b32daca093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 10/59] fix: do not discard a block of data when its diagnostic
 list of breaks cannot be made

---
 gemlog/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index b41070d..2267b51 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1258,8 +1258,9 @@ def _assign_times(L):
     G = _reformat_GPS(L['gps'])
     try:
         breaks = _find_breaks(L)
-    except:
-        raise CorruptRawFile('Problem between ' + fnList[0] + '-' + fnList[-1] + '; stopping before this interval. Break between recording periods? Corrupt files?')
+    except Exception: # breaks are only diagnostic output, no reason to give up the data (e.g., due to a wrong GPS fix)
+        breaks = None
+        print('Could not find breaks between ' + fnList[0] + '-' + fnList[-1] + '. Break between recording periods? Corrupt files?')
     piecewiseTimeFit = L['header']
     L['metadata']['t'] = _apply_segments(L['metadata']['millis'], piecewiseTimeFit)
     header = L['header']
-- 
2.43.0


From 7cec69dce234da3a6da999c565ccb4461e8df50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 11/59] fix: judge GPS coverage of a file by its consistent
 fixes

---
 gemlog/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 2267b51..87a9b2d 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1113,7 +1113,7 @@ def _calculate_drift(L, fn, require_gps):
         sufficient_gps = False
     else:
         any_gps = True
-        sufficient_gps = (0.001024*(L['data'][-1,0] - L['data'][0,0]) / (L['gps'].t.iloc[-1] - L['gps'].t.iloc[0] + 1e-9)) < 2 # 1e-9 to prevent div by 0
+        sufficient_gps = (0.001024*(L['data'][-1,0] - L['data'][0,0]) / (L['gps'].t.max() - L['gps'].t.min() + 1e-9)) < 2 # 1e-9 to prevent div by 0
 
     if require_gps and not any_gps:
         raise CorruptRawFileNoGPS('No GPS data in ' + fn + ', skipping this file')
@@ -1128,8 +1128,8 @@ def _calculate_drift(L, fn, require_gps):
         try:
             ## run the GPS time vs millis regression
             reg, num_gps_nonoutliers, MAD_nonoutliers, resid, xx, yy = _robust_regress(L['gps'].msPPS, L['gps'].t)
-            ## ensure that the regression was successful
-            if ((0.001024*(L['data'][-1,0] - L['data'][0,0]) / (xx.iloc[-1] - xx.iloc[0])) > 2) \
+            ## ensure that the regression was successful, with non-outlier fixes (times yy) covering enough of the data
+            if ((0.001024*(L['data'][-1,0] - L['data'][0,0]) / (yy.iloc[-1] - yy.iloc[0])) > 2) \
                or (num_gps_nonoutliers < 10) \
                or MAD_nonoutliers > 0.01:
                 raise CorruptRawFileInadequateGPS('No useful GPS data in ' + fn + ', skipping this file')
-- 
2.43.0


From 3357d32a9d290e8a8487ec9c68e06fe4ac132d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 12/59] fix: keep data when sample times step backwards or
 repeat, and end traces at isolated samples

---
 gemlog/core.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 87a9b2d..5a17e78 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1290,22 +1290,25 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
     p_in = data[w_nonnan,1]
     _breakpoint()
     #t1 = np.trunc(t_in[t_in >= t1][0]+1-0.01) ## added on 2019-09-11. 2021-07-11: this line is responsible for losing samples before the start of a second
-    t1 = t_in[t_in >= (t1 - 0.01 - eps)][0]
-    t2 = t_in[t_in <= (t2 + .01 + eps)][-1] # add a sample because t2 is 1 sample before the hour
-    breaks_raw = np.where((np.diff(t_in) > max_step) | (np.diff(t_in) < min_step) )[0] # 2020-11-04: check for backwards steps too
-    breaks = breaks_raw[(t_in[breaks_raw] > t1) & (t_in[breaks_raw+1] < t2)]
-    starts = np.hstack([t1, t_in[breaks+1]]) # start times of continuous chunks
-    ends = np.hstack([t_in[breaks], t2]) # end times of continuous chunks
-    w_same = (starts != ends)
-    starts = starts[w_same]
-    ends = ends[w_same]
+    w_interval = (t_in >= (t1 - 0.01 - eps)) & (t_in <= (t2 + 0.01 + eps)) # add a sample because t2 is 1 sample before the hour
+    t_in = t_in[w_interval]
+    p_in = p_in[w_interval]
+    breaks = np.where((np.diff(t_in) > max_step) | (np.diff(t_in) < min_step) )[0] # 2020-11-04: check for backwards steps too
+    ## chunks are identified by sample number, not time: they can overlap in time after a backwards step
+    firsts = np.hstack([0, breaks+1]) # first samples of continuous chunks
+    lasts = np.hstack([breaks, len(t_in)-1]) # last samples of continuous chunks
     ## make an output time vector excluding data gaps, rounded to the nearest samples
     #t_interp = np.zeros(0)
     output = obspy.Stream()
-    for i in range(len(starts)):
-        w = (t_in >= (starts[i] - 0.01 - eps)) & (t_in <= (ends[i] + 0.01 - eps))
+    for first, last in zip(firsts, lasts):
+        t_chunk = t_in[first:(last+1)]
+        p_chunk = p_in[first:(last+1)]
+        num_out = int(np.trunc((t_chunk[-1] - t_chunk[0])/0.01))
+        if num_out < 1:
+            continue # too short to interpolate
+        w = np.hstack([True, np.diff(t_chunk) > 0]) # skip repeated sample times
         try:
-            f = scipy.interpolate.CubicSpline(t_in[w], p_in[w])
+            f = scipy.interpolate.CubicSpline(t_chunk[w], p_chunk[w])
         except:
             _breakpoint()
             continue
@@ -1313,7 +1316,7 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
             ##    raise(Exception('_interp_time failed between ' +str(obspy.UTCDateTime(starts[i])) +\
             ##                    ' and ' + str(obspy.UTCDateTime(ends[i]))))
         #t_interp = np.arange(starts[i], ends[i] + eps, 0.01) # this is a bug in np.arange--intervals can be inconsistent when delta is float. This can result in significant timing errors, especially for long traces.
-        t_interp = np.round(starts[i] + np.arange(np.trunc((ends-starts)[i]/0.01)) * 0.01, 2)
+        t_interp = np.round(t_chunk[0] + np.arange(num_out) * 0.01, 2)
         p_interp = np.array(f(t_interp).round(), dtype = 'int32')
         tr = obspy.Trace(p_interp)
         tr.stats.starttime = t_interp[0]
-- 
2.43.0


From 6df221d37acb5c0b701f2445dac2f77dc5084677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 13/59] fix: keep sample intervals regular when a trace starts
 halfway between grid points

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 5a17e78..7336ceb 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1316,7 +1316,7 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
             ##    raise(Exception('_interp_time failed between ' +str(obspy.UTCDateTime(starts[i])) +\
             ##                    ' and ' + str(obspy.UTCDateTime(ends[i]))))
         #t_interp = np.arange(starts[i], ends[i] + eps, 0.01) # this is a bug in np.arange--intervals can be inconsistent when delta is float. This can result in significant timing errors, especially for long traces.
-        t_interp = np.round(t_chunk[0] + np.arange(num_out) * 0.01, 2)
+        t_interp = np.round(np.round(t_chunk[0], 2) + np.arange(num_out) * 0.01, 2) # round the start first, or a start halfway between samples gives irregular intervals
         p_interp = np.array(f(t_interp).round(), dtype = 'int32')
         tr = obspy.Trace(p_interp)
         tr.stats.starttime = t_interp[0]
-- 
2.43.0


From 7bbddc39d22fe4ed74547c630be6e4fdb297e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 14/59] fix: honour conversion start and stop times given in
 any form and wherever they fall

---
 gemlog/core.py | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 7336ceb..e5cfd1e 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -200,7 +200,8 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             raise
     if L['data'].count() == 0:
         raise MissingRawFiles(f'No non-corrupt raw files found in folder "{rawpath}"')
-    p = L['data']
+    p = _merge_gaps(L['data'])
+    t_read = max([tr.stats.endtime for tr in p]) # end of the data read so far
     
     ## if bitweight isn't set, use the default bitweight for the logger version, config, and units
     if(np.isnan(bitweight)):
@@ -213,13 +214,15 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
       
     ## if not specified, define t1 as the earliest integer-second time available
     if(np.isinf(float(t1))):
-        p = L['data']
-        p = _merge_gaps(p)
         t1 = p[0].stats.starttime
         t1 = obspy.core.UTCDateTime(np.ceil(float(t1)))
+    else: # obspy would interpret a float as an offset from the start of the data
+        t1 = obspy.core.UTCDateTime(t1)
 
     if(np.isinf(float(t2))):
         t2 = obspy.core.UTCDateTime.strptime('9999-12-31 23:59:59', '%Y-%m-%d %H:%M:%S') # timekeeping apocalypse
+    else:
+        t2 = obspy.core.UTCDateTime(t2)
   
     wsn = 0
     while(len(SN) < 3): # take the first non-NA SN. This is important because there can be blank files in there.
@@ -265,6 +268,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         gps[wgps].to_csv(gpsfile, index=False)
 
     hour_to_write = max(t1, p[0].stats.starttime)
+    p, hour_to_write = _trim_stream(p, hour_to_write, t2) # drop any data outside the requested period
     
     ## read sets of (12*blockdays) files until all the files are converted
     while(True):
@@ -275,7 +279,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             break # already converted the requested data
         ## load new data if necessary
         tt2 = min(t2, _trunc_UTCDateTime(t1, 86400*blockdays) + 86400*blockdays)
-        while((p[-1].stats.endtime < tt2) & (n1 <= max(nums))):
+        while((t_read < tt2) & (n1 <= max(nums))):
             try:
                 L = read_gem(path = rawpath, nums = nums[(nums >= n1) & (nums < (n1 + (12*blockdays)))], SN = SN, network = network, station = station, location = location)
             except MissingRawFiles: # this can happen if a block of empty files is encountered
@@ -299,6 +303,8 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                     print('Problem with files, skipping: ' + L['header'].file[i])
 
             p = _merge_gaps(p + L['data'])
+            t_read = max([t_read] + [tr.stats.endtime for tr in p])
+            p, hour_to_write = _trim_stream(p, hour_to_write, t2)
                 
             ## start metadata and gps files
             metadata = L['metadata']   
@@ -310,28 +316,18 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                 gps.to_csv(gpsfile, index=False, mode='a', header=False)
             problems += L['problems']
         ## run the conversion and write new converted files
-        while((hour_to_write + file_length_sec) <= p[-1].stats.endtime):
+        while((len(p) > 0) and ((hour_to_write + file_length_sec) <= p[-1].stats.endtime)):
             #hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
             hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-            p.trim(hour_to_write, t2)
-            p = p.split()
-            if(len(p) > 0):
-                hour_to_write = p[0].stats.starttime
-            else:
-                break
+            p, hour_to_write = _trim_stream(p, hour_to_write, t2)
             
         ## update start time to convert
-        p.trim(hour_to_write, t2)
+        p, hour_to_write = _trim_stream(p, hour_to_write, t2)
         t1 = _trunc_UTCDateTime(tt2+(86400*blockdays) + 1, 86400*blockdays)
     ## done reading new files. write what's left and end.
-    while((hour_to_write <= p[-1].stats.endtime) & (len(p) > 0)):
+    while((len(p) > 0) and (hour_to_write <= p[-1].stats.endtime)):
         hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-        p.trim(hour_to_write, t2)
-        p = p.split()
-        if(len(p) > 0):
-            hour_to_write = p[0].stats.starttime
-        else:
-            break
+        p, hour_to_write = _trim_stream(p, hour_to_write, t2)
     return problems
 ####################################
 
@@ -390,6 +386,18 @@ def write_wav(tr, filename = None, path = '.', time_format = '%Y-%m-%dT%H_%M_%S'
     wavfile.write(path + '/' + filename, int(tr.stats.sampling_rate), tr.data)
     
 
+def _trim_stream(p, t1, t2):
+    ## trim a (possibly empty) stream to a period that may miss it entirely, and find the time of
+    ## the first sample left (or t1, if none are left)
+    eps = 1e-6 # tolerate rounding of sample times, but don't keep samples outside the period
+    if t1 > t2:
+        return obspy.Stream(), t1
+    p.trim(t1 - eps, t2 + eps, nearest_sample = False)
+    p = p.split()
+    if len(p) > 0:
+        t1 = p[0].stats.starttime
+    return p, t1
+
 def _trunc_UTCDateTime(x, n=86400):
     return obspy.core.UTCDateTime(int(float(x)/n)*n)#, origin='1970-01-01')
 
-- 
2.43.0


From f48b2a2cd8debd7c220428e631731d0f262a5ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 15/59] fix: do not overwrite a converted file when another
 piece of data starts in the same second

---
 gemlog/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index e5cfd1e..4492d8a 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -339,9 +339,13 @@ def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, converte
     # Ideally, this would write mseed files with data gaps (masked arrays) if the stream here has
     # a gap. Unfortunately, those fail to write, so we have to write multiple files instead.
     pp = pp.split() 
+    used_filenames = []
     for tr in pp:
         tr.stats.calib = bitweight
         fn = _make_filename_converted(tr, output_format)
+        if fn in used_filenames: # another piece of data starts in the same second; don't overwrite it
+            fn = _make_filename_converted(tr, output_format, hundredths = True)
+        used_filenames.append(fn)
         if(len(tr) > 0):
             print(tr)
             if(output_format.lower() == 'wav'):
@@ -410,10 +414,11 @@ def _make_filename(dir, SN, dirtype):
     return fn
 
 
-def _make_filename_converted(pp, output_format):
+def _make_filename_converted(pp, output_format, hundredths = False):
     t0 = pp.stats.starttime
+    fraction = f'_{int(round(t0.microsecond/1e4)):02}' if hundredths else ''
     ## colons separating H:M:S would be more readable, but are not allowed in Windows filenames
-    return f'{t0.year:04}' + '-' +f'{t0.month:02}' + '-' +f'{t0.day:02}' + 'T' + f'{t0.hour:02}' + '_' + f'{t0.minute:02}' + '_' + f'{t0.second:02}' + '.' + pp.id + '.' + output_format.lower()
+    return f'{t0.year:04}' + '-' +f'{t0.month:02}' + '-' +f'{t0.day:02}' + 'T' + f'{t0.hour:02}' + '_' + f'{t0.minute:02}' + '_' + f'{t0.second:02}' + fraction + '.' + pp.id + '.' + output_format.lower()
 
 
 ##############################################################
-- 
2.43.0


From 5a27c416529dade635c2d3c41b236742e1a67daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 16/59] fix: report the skipped files of blocks that have no
 readable files

---
 gemlog/core.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 4492d8a..7b53f50 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -187,6 +187,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
   
     ## read the first set of up to (24*blockdays) files
     L = _new_gem_var()
+    skipped = [] # problems found in blocks that have no readable files
     while((L['data'].count() == 0) & (n1 <= max(nums))): ## read sets of files until we get one that isn't empty
         nums_block = nums[(nums >= n1) & (nums < (n1 + (12*blockdays)))] # files are 2 hours, so 12 files is 24 hours
         n1 = n1 + (12*blockdays) # increment file number counter
@@ -194,7 +195,8 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             L = read_gem(path = rawpath, nums = nums_block, SN = SN, network = network, station = station, location = location)
         except MissingRawFiles: # if the block has no files, keep searching
             continue
-        except CorruptRawFile: # if the block has no files, keep searching
+        except CorruptRawFile as e: # if the block has no files, keep searching
+            skipped += getattr(e, 'problems', [])
             continue
         except: # if there's any other problem, raise it
             raise
@@ -260,7 +262,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     ## start metadata and gps files
     metadata = L['metadata']   
     gps = L['gps']
-    problems = L['problems']
+    problems = skipped + L['problems']
     metadata.to_csv(metadatafile, index=False) ## change to metadata format. need to make ScanMnetadata compatible with both
 
     wgps = (gps['t'] > (t1 - 1)) 
@@ -284,7 +286,8 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                 L = read_gem(path = rawpath, nums = nums[(nums >= n1) & (nums < (n1 + (12*blockdays)))], SN = SN, network = network, station = station, location = location)
             except MissingRawFiles: # this can happen if a block of empty files is encountered
                 continue
-            except CorruptRawFile: # if the block has no files, keep searching
+            except CorruptRawFile as e: # if the block has no files, keep searching
+                problems += getattr(e, 'problems', [])
                 continue
             except: # especially for KeyboardInterrupt!
                 raise
@@ -528,7 +531,9 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
 
     ## stop early if we don't have data to process
     if len(L['data']) == 0:
-        raise CorruptRawFileInadequateGPS('Inadequate GPS information in data files ' + str(nums) + ' for SN "' + SN + '" in raw directory ' + str(path))
+        exception = CorruptRawFileInadequateGPS('Inadequate GPS information in data files ' + str(nums) + ' for SN "' + SN + '" in raw directory ' + str(path))
+        exception.problems = L['problems'] # so the skipped files can still be reported
+        raise exception
 
     if L['gps'].shape[0] == 0:
         for key in L['gps'].keys():
-- 
2.43.0


From 35ddf4cfe52df708c6681344f67cbdf5c5f6872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 17/59] fix: skip a file with an unreadable header instead of
 abandoning the conversion

---
 gemlog/core.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 7b53f50..a322a17 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -512,13 +512,21 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
     ## at this point, if we don't have any files, raise a missing file exception
     if len(fnList) == 0:
         raise MissingRawFiles(str(path) + ': ' + str(nums))
+    header_problems = []
     while True:
         if len(fnList) == 0: # at this point, if we have no files, they're all corrupt. 
-            raise CorruptRawFile(str(path) + ': ' + str(nums))
+            exception = CorruptRawFile(str(path) + ': ' + str(nums))
+            exception.problems = header_problems
+            raise exception
         try:
             version = _read_format_version(fnList[0])
             config = _read_config(fnList[0])
-        except: # if we can't read the config for the first file here, drop it and try the next one
+            if version not in _time_corrections.keys():
+                raise CorruptRawFile('Invalid or missing data format')
+            if config['adc_range'] not in [0, 1]:
+                raise CorruptRawFile('Invalid configuration')
+        except Exception as e: # if we can't read the config for the first file here, drop it and try the next one
+            header_problems.append(f'Corrupt raw file {fnList[0]}: {e}')
             fnList = fnList[1:] # 
         else:
             break
@@ -529,6 +537,8 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
     else:
         raise Exception(fnList[0] + ': Invalid or missing data format')
 
+    L['problems'] = header_problems + L['problems']
+
     ## stop early if we don't have data to process
     if len(L['data']) == 0:
         exception = CorruptRawFileInadequateGPS('Inadequate GPS information in data files ' + str(nums) + ' for SN "' + SN + '" in raw directory ' + str(path))
-- 
2.43.0


From c09f8edaa01e3ca72f5e4e3c59e5b5c33e9b4b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 18/59] fix: do not fail at output file boundaries when the
 file length is not a whole number of seconds

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index a322a17..ce8f883 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -337,7 +337,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
 def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, hour_end = np.nan, output_format='mseed'):
     eps = 1e-6
     if(np.isnan(hour_end)):
-        hour_end = _trunc_UTCDateTime(hour_to_write, file_length_sec) + file_length_sec
+        hour_end = _trunc_UTCDateTime(hour_to_write + eps, file_length_sec) + file_length_sec # eps because file_length_sec may not be exact
     pp = p.slice(hour_to_write, hour_end - eps, nearest_sample = False) # nearest sample and eps avoid overlapping samples between files
     # Ideally, this would write mseed files with data gaps (masked arrays) if the stream here has
     # a gap. Unfortunately, those fail to write, so we have to write multiple files instead.
-- 
2.43.0


From 0f905fc833102b8a6110df7a2f895a56b86811f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 19/59] fix: do not overwrite the previous converted file when
 output files are not a whole number of seconds

---
 gemlog/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index ce8f883..7d9842d 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -270,6 +270,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         gps[wgps].to_csv(gpsfile, index=False)
 
     hour_to_write = max(t1, p[0].stats.starttime)
+    used_filenames = []
     p, hour_to_write = _trim_stream(p, hour_to_write, t2) # drop any data outside the requested period
     
     ## read sets of (12*blockdays) files until all the files are converted
@@ -320,8 +321,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             problems += L['problems']
         ## run the conversion and write new converted files
         while((len(p) > 0) and ((hour_to_write + file_length_sec) <= p[-1].stats.endtime)):
-            #hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-            hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
+            hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format, used_filenames=used_filenames)
             p, hour_to_write = _trim_stream(p, hour_to_write, t2)
             
         ## update start time to convert
@@ -329,12 +329,12 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         t1 = _trunc_UTCDateTime(tt2+(86400*blockdays) + 1, 86400*blockdays)
     ## done reading new files. write what's left and end.
     while((len(p) > 0) and (hour_to_write <= p[-1].stats.endtime)):
-        hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
+        hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format, used_filenames=used_filenames)
         p, hour_to_write = _trim_stream(p, hour_to_write, t2)
     return problems
 ####################################
 
-def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, hour_end = np.nan, output_format='mseed'):
+def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, hour_end = np.nan, output_format='mseed', used_filenames = None):
     eps = 1e-6
     if(np.isnan(hour_end)):
         hour_end = _trunc_UTCDateTime(hour_to_write + eps, file_length_sec) + file_length_sec # eps because file_length_sec may not be exact
@@ -342,7 +342,7 @@ def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, converte
     # Ideally, this would write mseed files with data gaps (masked arrays) if the stream here has
     # a gap. Unfortunately, those fail to write, so we have to write multiple files instead.
     pp = pp.split() 
-    used_filenames = []
+    used_filenames = [] if used_filenames is None else used_filenames # list of files already written in this conversion
     for tr in pp:
         tr.stats.calib = bitweight
         fn = _make_filename_converted(tr, output_format)
-- 
2.43.0


From 21928d61e719014b1607b8e81b925442a91b44ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:28 +0000
Subject: [PATCH 20/59] fix: do not step through every day between a start time
 and the first sample

---
 gemlog/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 7d9842d..ddb9351 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -272,6 +272,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     hour_to_write = max(t1, p[0].stats.starttime)
     used_filenames = []
     p, hour_to_write = _trim_stream(p, hour_to_write, t2) # drop any data outside the requested period
+    t1 = max(t1, hour_to_write) # no need to search for data in the time before the first sample
     
     ## read sets of (12*blockdays) files until all the files are converted
     while(True):
-- 
2.43.0


From 76d1c9beb116c9cab9474f45cca4e4da22da1e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:28 +0000
Subject: [PATCH 21/59] fix: do not stop reading before the requested stop time

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index ddb9351..e75a997 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -327,7 +327,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             
         ## update start time to convert
         p, hour_to_write = _trim_stream(p, hour_to_write, t2)
-        t1 = _trunc_UTCDateTime(tt2+(86400*blockdays) + 1, 86400*blockdays)
+        t1 = tt2 + 0.001 # anything sooner has been converted
     ## done reading new files. write what's left and end.
     while((len(p) > 0) and (hour_to_write <= p[-1].stats.endtime)):
         hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format, used_filenames=used_filenames)
-- 
2.43.0


From 0e9f278107e55fd2a52fb8a97f8011b9883e00aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:49 +0000
Subject: [PATCH 22/59] fix: gem_cat no longer fuses an unterminated last line
 with the next file

---
 gemlog/gem_cat.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gemlog/gem_cat.py b/gemlog/gem_cat.py
index a6f96d5..fddd2ed 100644
--- a/gemlog/gem_cat.py
+++ b/gemlog/gem_cat.py
@@ -115,6 +115,14 @@ def AppendFile(infile, outfile, prev_infile):
     if not os.path.exists(outpath):
         os.makedirs(outpath)
         
+    # a previous file cut off in mid-line must not run into the appended one
+    with open(outfile, 'rb') as OF:
+        OF.seek(max(0, os.path.getsize(outfile) - 1))
+        last_byte = OF.read()
+    if last_byte not in [b'', b'\n']:
+        with open(outfile, 'a') as OF:
+            OF.write('\n')
+
     format = _read_format_version(infile)
     if format in ['0.85C', '0.9', '0.91', '1.10']:
         ## find the pressure at the end of the previous file
-- 
2.43.0


From b865b4b2c2cf9afb8e6711c00fe122aef7751f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:23 +0000
Subject: [PATCH 23/59] fix: gain setting comes from the first usable raw file

---
 gemlog/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index e75a997..ff5e7b6 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -561,6 +561,12 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
         tr.stats.station = station
         tr.stats.location = location # this may well be ''
         tr.stats.network = network # can be '' for now and set later
+    ## take the config from the first file that was used (earlier ones can be missing their config line)
+    for fn, num_data_pts in zip(fnList, L['header']['num_data_pts']):
+        if num_data_pts > 0 and _read_config(fn)['adc_range'] in [0, 1]:
+            config = _read_config(fn)
+            break
+
     ## add bitweight and config info to header
     bitweight_info = get_bitweight_info(SN, config)
     header = L['header']
-- 
2.43.0


From 2ceda54300fb4141708008a2cc448b2db8afbda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:37 +0000
Subject: [PATCH 24/59] fix: station tables: keep codes as text without a
 header, make network/location optional, accept in-memory tables

---
 gemlog/gem_network.py | 53 ++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 29 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index b032b28..f358d10 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -144,49 +144,44 @@ def _fix_station_info_keys(d):
     allowed_keys = ['SN', 'network', 'station', 'location', 'elevation']
     for key in allowed_keys:
         ## for the given allowed key, find the existing key that matches it
-        w = [test_key.lower()[:2] == key.lower()[:2] for test_key in d.keys()]
-        if any(w):
+        w = [str(test_key).lower() == key.lower() for test_key in d.keys()]
+        if any(w) and key not in d.keys():
             ## rename that key to the standard name
             d[key] = d.pop(list(d.keys())[np.where(w)[0][0]])
     return d
 
 def _get_station_info(station_info):
-    required_keys = ['sn', 'network', 'station', 'location']
+    columns = ['SN', 'network', 'station', 'location', 'elevation']
     if type(station_info) == str:
         print('Reading file %s' % station_info)
-        header_df = pd.read_csv(station_info, nrows = 1, header = None, index_col = False)
+        ## read everything as text, so that leading zeros are kept and blank codes stay blank
+        header_df = pd.read_csv(station_info, nrows = 1, header = None, index_col = False, dtype = 'str', keep_default_na = False)
         header_list = [header_df[key][0] for key in header_df.keys()]
-        if all([i.lower() in (required_keys + ['elevation']) for i in header_list]): # file has header line
+        if all([i.lower() in [column.lower() for column in columns] for i in header_list]): # file has header line
             print('File has valid header, using that for column names')
-            station_info = pd.read_csv(station_info, dtype = {key:'str' for key in header_list}, keep_default_na = False)
+            station_info = pd.read_csv(station_info, dtype = 'str', keep_default_na = False)
+        elif len(header_list) in [4, 5]:
+            columns = columns[:len(header_list)]
+            print('File does not have a valid header, using default columns [' + ', '.join(columns) + ']')
+            station_info = pd.read_csv(station_info, names = columns, dtype = 'str', keep_default_na = False, index_col = False)
         else:
-            if len(header_list) == 4:
-                print('File does not have a valid header, using default columns [SN, network, station, location]')
-                station_info = pd.read_csv(station_info, names = required_keys, dtype = {key:'str' for key in header_list}, keep_default_na = False, index_col = False)
-            elif len(header_list) == 5:
-                print('File does not have a valid header, using default columns [SN, network, station, location, elevation]')
-                station_info = pd.read_csv(station_info, names = required_keys + ['elevation'], dtype = {key:'str' for key in header_list}, keep_default_na = False, index_col = False)
-            else:
-                raise Exception('invalid station_info file; must have 4 or 5 columns or valid header')
-        ## if any keys are capitalized or abbreviated wrong, correct them
-        station_info = _fix_station_info_keys(station_info)
+            raise Exception('invalid station_info file; must have 4 or 5 columns or valid header')
     elif (type(station_info) is not pd.DataFrame):
         raise Exception('invalid station_info input')
     else:
-        #station_info = _fix_station_info_keys(station_info)
-        if any([key not in station_info.keys() for key in required_keys]):
-            raise Exception('invalid station_info input')
-    # if location and network fields are blank in file, they are interpreted as nan and must be
-    # turned back into blank
+        station_info = station_info.reset_index(drop = True) # rows are looked up by number; also, leave the user's copy alone
+    ## if any keys are capitalized wrong, correct them
+    station_info = _fix_station_info_keys(station_info)
+    if any([key not in station_info.keys() for key in ['SN', 'station']]):
+        raise Exception('invalid station_info input; must include columns SN and station')
+    # network, location, and elevation are optional and can be omitted completely or left blank
+    for key in ['network', 'location']:
+        if key not in station_info.keys():
+            station_info[key] = ''
+        station_info[key] = station_info[key].astype(object).where(station_info[key].notna(), '')
     if 'elevation' not in station_info.keys():
-        station_info['elevation'] = np.zeros(station_info.shape[0]) - 9999
-        
-    if station_info['elevation'].dtype == 'str':
-        station_info['elevation'] = station_info['elevation'].astype('float')
-        
-    station_info.loc[station_info.location.isna(), 'location'] = ''
-    station_info.loc[station_info.network.isna(), 'network'] = ''
-    station_info.loc[station_info.elevation.isna(), 'elevation'] = -9999
+        station_info['elevation'] = -9999.0
+    station_info['elevation'] = station_info['elevation'].replace('', np.nan).astype('float').fillna(-9999.0)
     return station_info
 
 def make_gem_inventory(station_info, coords, response = 'default'):
-- 
2.43.0


From 5c15eb51bbc9af0d7aaa26692bc205e39bb3d02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:59 +0000
Subject: [PATCH 25/59] fix: day-merging takes only the files it is meant to

---
 gemlog/gem_network.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index f358d10..56ad315 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -345,6 +345,7 @@ def merge_files_day(infile_path, infile_pattern = '*', outfile_dir = 'merge_file
     ## find unique year, month, day lists for all files
     cuts = [infile.split('/')[-1].split('.')[0].split('T')[0] + ',' + '.'.join(infile.split('/')[-1].split('.')[1:])
             for infile in infiles]
+    file_cuts = cuts
     cuts = _unique(cuts)
     days = [cut.split(',')[0] for cut in cuts]
     suffixes = [cut.split(',')[1] for cut in cuts]
@@ -352,7 +353,10 @@ def merge_files_day(infile_path, infile_pattern = '*', outfile_dir = 'merge_file
     ## for each item, read all the files and 
     for day, suffix in zip(days, suffixes):
         print(day + ' ' + suffix)
-        x = obspy.read(infile_path + '/' + day + '*' + suffix)
+        x = obspy.Stream()
+        for infile, cut in zip(infiles, file_cuts): # not glob: '*' could match part of a network code
+            if cut == day + ',' + suffix:
+                x += obspy.read(infile)
         x.merge(fill_value = 'latest', method = 1)
         x.write(outfile_dir + '/' + day + 'T00_00_00.' + suffix)
     return
-- 
2.43.0


From cb5b2a5a1383ed6504e5d7a383cf054d8b78a0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:07 +0000
Subject: [PATCH 26/59] fix: renaming keeps both files when two start in the
 same second

---
 gemlog/gem_network.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 56ad315..25e1cdf 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -308,6 +308,7 @@ def rename_files(infile_pattern, station_info, output_dir, output_format = 'msee
     infiles = glob.glob(infile_pattern)
     infiles.sort()
     assert len(infiles) > 0, 'No input files provided'
+    used_filenames = []
     for i, infile in enumerate(infiles):
         st = obspy.read(infile)
         fileParts = infile.split('/')[-1].split('.')
@@ -333,6 +334,10 @@ def rename_files(infile_pattern, station_info, output_dir, output_format = 'msee
                            'loc':location, 'chan':'HDF', 'fmt':output_format}
         outfile_pattern = _fix_file_name_digits(outfile_pattern)
         output_file = outfile_pattern.format(**trace_info_dict)
+        if output_file in used_filenames: # another input file starts in the same second; don't overwrite it
+            hundredths = '_%02d' % (round(t1.microsecond/1e4) % 100)
+            output_file = outfile_pattern.replace('{sec:02d}', '{sec:02d}' + hundredths).format(**trace_info_dict)
+        used_filenames.append(output_file)
         st.write(output_dir + '/' + output_file, format = output_format)
         print(str(i+1) + ' of ' + str(len(infiles)) + ': ' + infile + ', ' + output_file)
     return station_info
-- 
2.43.0


From 8db714858bd7b611dcc01dfd5930170a756e228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:09 +0000
Subject: [PATCH 27/59] fix: read GPS tables with current pandas

---
 gemlog/gem_network.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 25e1cdf..85c32a0 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -429,8 +429,9 @@ def read_gps(gps_dir_pattern, SN):
             else:
                 fnList = []
         if len(fnList) > 0: # if any gps files matching SN are found, read and append the last
-            gpsTable = pd.concat([gpsTable,
-                                  pd.read_csv(fnList[-1], parse_dates = ['t'], date_parser = obspy.UTCDateTime)], ignore_index=True)
+            newTable = pd.read_csv(fnList[-1])
+            newTable['t'] = np.array([obspy.UTCDateTime(t) for t in newTable['t']], dtype = object)
+            gpsTable = pd.concat([gpsTable, newTable], ignore_index=True)
     return gpsTable
 ReadLoggerGPS = read_gps # alias; v1.0.0
 
-- 
2.43.0


From e980a5d6f10cb5cecd0f206a50beb45c2b6cd8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:09 +0000
Subject: [PATCH 28/59] fix: drop GPS data outside the requested period before
 removing outliers

---
 gemlog/gem_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 85c32a0..572d9d3 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -524,8 +524,9 @@ def summarize_gps(gps_dir_pattern, station_info = None, output_file = None, t1 =
     seFun = lambda x: np.std(x)/np.sqrt(len(x))
     for i, SN in enumerate(snList):
         print(str(i+1) + ' of ' + str(len(snList)) + ': ' + SN)
-        gpsTable = _remove_outliers(read_gps(gps_dir_pattern, SN))
+        gpsTable = read_gps(gps_dir_pattern, SN)
         gpsTable = gpsTable.iloc[np.where((gpsTable.t >= t1) & (gpsTable.t <= t2))[0], :]
+        gpsTable = _remove_outliers(gpsTable) # after dropping data outside the period, which may be from elsewhere
         if gpsTable.shape[0] > 0:
             coords = pd.concat([
                 coords,
-- 
2.43.0


From bf553527e6282512db796b990050b002b8660cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:09 +0000
Subject: [PATCH 29/59] fix: GPS tables are matched by their whole serial
 number

---
 gemlog/gem_network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 572d9d3..3ae2b9b 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -421,10 +421,10 @@ def read_gps(gps_dir_pattern, SN):
     gpsTable = pd.DataFrame(columns=['year', 'date', 'lat', 'lon', 't'])
     for gpsDir in gpsDirList:
         if os.path.isdir(gpsDir):
-            fnList = sorted(glob.glob(gpsDir + '/' + SN + '*'))
+            fnList = sorted(glob.glob(gpsDir + '/' + SN + 'gps*txt'))
         else:
             # in case the user provides the gps filename directly. requires that the filename start with SN.
-            if pathlib.Path(gpsDir).name[:3] == SN:
+            if pathlib.Path(gpsDir).name.split('gps')[0] == SN:
                 fnList = [gpsDir]
             else:
                 fnList = []
@@ -641,7 +641,7 @@ def summarize_gps_terminal(input = sys.argv[1:]):
 
     coords = summarize_gps(gps_folder, station_info = station_info_file,
                            output_file = output_file + '.csv', t1 = args.t1, t2 = args.t2,
-                           include_SN = args.include_SNs, exclude_SN = args.exclude_SNs)
+                           include_SN = include_SNs, exclude_SN = exclude_SNs)
     response = gemlog.get_gem_response(gain = 'high')
     if 'station' not in coords.keys():
         coords['station'] = coords['SN']
-- 
2.43.0


From e5750bd241bc1f518e2a88f61a4881affdb7d8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:02 +0000
Subject: [PATCH 30/59] fix: make_gem_inventory skips networks without any
 located station

---
 gemlog/gem_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 3ae2b9b..8697f75 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -267,6 +267,9 @@ def make_gem_inventory(station_info, coords, response = 'default'):
             station.start_date = np.min([channel.start_date for channel in station.channels])
             station.end_date = np.max([channel.end_date for channel in station.channels])
             network.stations.append(station)
+        ## move on to the next network if this one is empty
+        if len(network.stations) == 0:
+            continue
         ## append the current network to the inventory
         network.start_date = np.min([station.start_date for station in network.stations])
         network.end_date = np.max([station.end_date for station in network.stations])
-- 
2.43.0


From bab26ad61d06d5b870c82bc34f94b5e17a676d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:02 +0000
Subject: [PATCH 31/59] fix: inventory command leaves out loggers missing from
 the station table

---
 gemlog/gem_network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 8697f75..e8f2356 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -657,7 +657,10 @@ def summarize_gps_terminal(input = sys.argv[1:]):
         
     coords['sn'] = coords['SN'] # avoids an error in make_gem_inventory
         
-    inv = gemlog.make_gem_inventory(coords, coords, response)
+    if station_info_file is not None: # leave out any loggers that it doesn't list
+        inv = gemlog.make_gem_inventory(station_info_file, coords, response)
+    else:
+        inv = gemlog.make_gem_inventory(coords, coords, response)
     inv.write(output_file + '.xml', format='STATIONXML') 
     inv.write(output_file + '.kml', format = 'KML') # stations only; locs don't get separate points
     
-- 
2.43.0


From c95e832f091785b91fa07a79f15fa10b56c3ad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:02 +0000
Subject: [PATCH 32/59] fix: default response of make_gem_inventory is the
 Gem's response

---
 gemlog/gem_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index e8f2356..4f20802 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -215,6 +215,9 @@ def make_gem_inventory(station_info, coords, response = 'default'):
     elif any([key not in coords.keys() for key in ['lat', 'lon', 'elevation']]):
         raise Exception("invalid coords; must contain keys 'lat', 'lon', 'elevation'")
     
+    if type(response) is str and response == 'default':
+        response = get_gem_response()
+
     ## create the inventory and loop through all the networks, stations, and locations in it
     inventory = obspy.Inventory()
     all_networks = _unique(station_info['network'])
-- 
2.43.0


From c86091cc866df5f6cc517e1c07776c4a499e0b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:35 +0000
Subject: [PATCH 33/59] fix: xcorr_one_day honours upsample_ratio when overlap
 is not given

---
 gemlog/xcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 82bedc5..f084bcb 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -314,7 +314,7 @@ def xcorr_one_day(st, args = {}):
     fh = args.get('fh') if args.get('fh') is not None else 40
     win_length_sec = args.get('win_length_sec') if args.get('win_length_sec') is not None else 5
     overlap = args.get('overlap') if args.get('overlap') is not None else 0
-    upsample_ratio = args.get('upsample_ratio') if args.get('overlap') is not None else 1
+    upsample_ratio = args.get('upsample_ratio') if args.get('upsample_ratio') is not None else 1
     _validate_inputs(fl, fh, win_length_sec, overlap, upsample_ratio)
 
     if upsample_ratio != 1:
-- 
2.43.0


From 76ac9a2c3c726c1c85fe978096511907a52cf5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:35 +0000
Subject: [PATCH 34/59] fix: consistency check allows one sample per
 cross-correlation, as documented

---
 gemlog/xcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index f084bcb..061b580 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -359,7 +359,7 @@ def xcorr_function(st, args):
         shift, value = xcorr_max(correlate(tr1.data, tr2.data, int(np.round(maxshift_seconds / dt))), abs_max = False)
         output_dict[f'lag_{pair_name}'] = shift * dt
         output_dict[f'r_{pair_name}'] = value
-        consistency += shift/len(st)
+        consistency += shift
         output_dict['mean_coef'] += value/len(st)
     ## consistency: allow up to one sample error per cross-correlation
     output_dict['consistency'] = np.abs(consistency) <= len(st)
-- 
2.43.0


From ef464ca75f4bb09f8542a2aa6d6f8bfc81f0371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 35/59] fix: days processed by loop_through_days no longer
 overlap when t1 is not midnight

---
 gemlog/xcorr.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 061b580..566a46e 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -231,17 +231,7 @@ def loop_through_days(function, filenames, t1 = '1970-01-01', t2 = '9999-12-31',
             break
     day_starts = np.array(day_starts)
 
-    day_ends = [day_starts[0]+86400] # bug here; causes problems with part-day files. Only run full-day files.
-    #day_ends = [day_starts[0].replace(hour=0, minute=0, second=0, microsecond=0)] # this fix didn't work
-
-    while True:
-        new_time = (day_ends[-1]+86400+2).replace(hour=0, minute=0, second=0) # add 24 hours + 2 sec, then round down
-        if new_time < t2:
-            day_ends.append(new_time)
-        else:
-            day_ends.append(t2)
-            break
-    day_ends = np.array(day_ends)
+    day_ends = np.append(day_starts[1:], t2) # each day runs until the next one starts
 
     files_read = []
     output_list = []
-- 
2.43.0


From 9a20970f59acfbe39e6894b479d9aa506179f845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 36/59] fix: apply_function_windows works for a record of a
 single window

---
 gemlog/xcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 566a46e..79c1d53 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -394,7 +394,7 @@ def apply_function_windows(st, f, win_length_sec, overlap = 0.5, args = {}):
     num_windows = 1 + int(np.ceil((data_length_sec - win_length_sec) / (win_length_sec * (1 - overlap)) - eps))
     output_dict = {'t_mid':[]}
     for i in range(num_windows):
-        win_start = t1 + i*(data_length_sec - win_length_sec) / (num_windows-1)
+        win_start = t1 + i*(data_length_sec - win_length_sec) / max(1, num_windows-1) # could be just one window
         st_tmp = st.slice(win_start-eps, win_start + win_length_sec - eps, nearest_sample = False)
         win_dict = f(st_tmp, args)
         #if i == 0:
-- 
2.43.0


From d412fa953a7894438d27e14555735110e756a967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 37/59] fix: windows are independent of what the function does
 to its data

---
 gemlog/xcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 79c1d53..d861613 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -395,7 +395,7 @@ def apply_function_windows(st, f, win_length_sec, overlap = 0.5, args = {}):
     output_dict = {'t_mid':[]}
     for i in range(num_windows):
         win_start = t1 + i*(data_length_sec - win_length_sec) / max(1, num_windows-1) # could be just one window
-        st_tmp = st.slice(win_start-eps, win_start + win_length_sec - eps, nearest_sample = False)
+        st_tmp = st.slice(win_start-eps, win_start + win_length_sec - eps, nearest_sample = False).copy() # f may modify its data, but windows can overlap
         win_dict = f(st_tmp, args)
         #if i == 0:
         #    output_dict = {key:[] for key in win_dict.keys()}
-- 
2.43.0


From 8fad147bdb9a3a40e7f7231cf8d81befac8996cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 38/59] fix: excluding a channel by its full code excludes only
 that channel

---
 gemlog/xcorr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index d861613..e5b206a 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -450,7 +450,10 @@ def _check_input_IDs(file_metadata_df, IDs, exclude_IDs):
         for i, ID in enumerate(output_IDs):
             exclude_this_ID = False
             for exclude_ID in exclude_IDs:
-                if re.search(exclude_ID, ID):
+                exclude_ID = str(exclude_ID)
+                if exclude_ID in found_IDs: # full code; don't exclude others that happen to include it
+                    exclude_this_ID = exclude_this_ID or (exclude_ID == ID)
+                elif re.search(exclude_ID, ID):
                     exclude_this_ID = True
             if not exclude_this_ID:
                 remaining_IDs.append(ID)
-- 
2.43.0


From 62f9bf903106b5905b72d9fe3ac3f349af0a3f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:42 +0000
Subject: [PATCH 39/59] fix: directions for part of the windows of a lag table

---
 gemlog/xcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index e5b206a..8100983 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -167,7 +167,7 @@ def invert_for_slowness(xcorr_df, locations):
     backazimuth = np.zeros(n_windows)
     slowness = np.zeros(n_windows)
     for i in range(n_windows):
-        lags = np.array([xcorr_df[lag_key][i] for lag_key in lag_keys[:-1]])
+        lags = np.array([xcorr_df[lag_key].iloc[i] for lag_key in lag_keys[:-1]])
         slowness_vector = H @ lags
         backazimuth[i] = np.arctan2(-slowness_vector[0], -slowness_vector[1]) * 180/np.pi
         slowness[i] = np.sqrt(np.sum(slowness_vector**2))
-- 
2.43.0


From 9980ff5dc6689de3a41225a6cdd1ce73e9a099cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:45 +0000
Subject: [PATCH 40/59] fix: directions with coordinates of selected stations

---
 gemlog/xcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 8100983..87da7f1 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -137,7 +137,7 @@ def invert_for_slowness(xcorr_df, locations):
         if re.search('rms', key):
             data_short_IDs.append(key.split('_')[1])
             
-    locations['ID'] = [f'{locations.network[i]}.{locations.station[i]}.{locations.location[i]}' for i in range(locations.shape[0])]
+    locations['ID'] = [f'{net}.{sta}.{loc}' for net, sta, loc in zip(locations.network, locations.station, locations.location)]
     keep_indices = np.where(np.isin(locations.ID, data_short_IDs))[0]
     locations = locations.iloc[keep_indices, :]
     locations = locations.sort_values('ID', ignore_index = True)
-- 
2.43.0


From 21567d5dfad9e08b034fefbcf39aa87cd6418162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:40 +0000
Subject: [PATCH 41/59] fix: band noise is the exact integral of the noise
 spectrum

---
 gemlog/gemlog_aux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index bf94719..c9f089a 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -316,7 +316,7 @@ def _noise_spectrum_helper(freq_in, power_in, freq_out, spectype, freq_min, freq
     spec_function = scipy.interpolate.CubicSpline(freq_in, power_in, extrapolate = False)
     power = spec_function(freq_out)
     if (freq_min is not None) and (freq_max is not None):
-        noise = scipy.integrate.quad(spec_function, freq_min, freq_max)[0] # 'quad' outputs are the estimated integral and error bar
+        noise = float(spec_function.integrate(freq_min, freq_max)) # exact integral of the spline
     else:
         noise = np.nan
 
-- 
2.43.0


From 51b57e98ac50710ccfaab459ad8ff5d526ee6b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:40 +0000
Subject: [PATCH 42/59] fix: accept the documented IMS noise model 'medium'

---
 gemlog/gemlog_aux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index c9f089a..99d20a3 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -299,7 +299,7 @@ def ims_noise(model = 'low', freq = None, spectype = 'power', freq_min = None, f
     freq_in = noise_spec['f']
     if model.lower() in ['low', 'min']:
         power_in = 10**noise_spec['min']
-    elif model.lower() == 'med':
+    elif model.lower() in ['medium', 'med']:
         power_in = 10**noise_spec['med']
     elif model.lower() in ['high', 'hi', 'max']:
         power_in = 10**noise_spec['max']
-- 
2.43.0


From 843ddb3e9940740a42cd66a3762c61737a5458d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:38 +0000
Subject: [PATCH 43/59] fix: gain='low' uses the half-gain logger response

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 4f20802..70a41be 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -116,7 +116,7 @@ def get_gem_response(gain = 'high', sensor_file = '', logger_file = ''):
         if gain.lower() == 'high':
             logger_file = 'RESP.XX.GM002..HHZ.GEMINFRAV1.0.100'
         elif gain.lower() == 'low':
-            logger_file = 'RESP.XX.GM002..HHZ.GEMINFRAV1.0.100'
+            logger_file = 'RESP.XX.GM001..HHZ.GEMINFRAV1.1.100'
         else:
             raise ValueError(f'invalid gain: {gain}')
     response = _read_response(os.path.join(response_path, 'datalogger', logger_file))
-- 
2.43.0


From b01813cf13742c1940470d8748dbca63d1e3ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 44/59] fix: huddle test compares temperatures at the same
 times

---
 gemlog/huddle_test.py | 43 +++++++++----------------------------------
 1 file changed, 9 insertions(+), 34 deletions(-)

diff --git a/gemlog/huddle_test.py b/gemlog/huddle_test.py
index 4253cd6..91ac375 100644
--- a/gemlog/huddle_test.py
+++ b/gemlog/huddle_test.py
@@ -642,44 +642,19 @@ def verify_huddle_test(path, SN_list = [], SN_to_exclude = [], individual_only =
     #### at every given time, temperature must agree within 2C for all loggers
     # interval of 061 and 065 is 10 seconds
     check_interval = 60 #seconds (time between checks)
-    all_interval= interval_dict.values()
-    df_width = check_interval / int(min(all_interval)) # use largest interval to calculate size
-   
-    
     # Determine start and stop times (Unix time)
-    mod = gps_start_min % df_width # modulus remainder to round start time to even minute
-    temp_start = gps_start_min - mod # start time on an even minute
-    mod = gps_stop_max % df_width
-    temp_end = gps_stop_max - mod - check_interval*10 # stop time on an even minute, ten minutes before end
-    
-    # Create dataframe to house temperatures to check
-    column_index = np.arange(0,int((temp_end-temp_start)/df_width),1) # theoretically, the number of values between start and end
+    temp_start = gps_start_min - gps_start_min % check_interval # start time on an even minute
+    temp_end = gps_stop_max - gps_stop_max % check_interval - check_interval*10 # stop time on an even minute, ten minutes before end
+    times_checked = np.arange(temp_start, temp_end, check_interval) # the same times for all loggers
+    column_index = np.arange(len(times_checked))
 
     # group_temp_df has the unexpected structure of SN as row and time as column
-    group_temp_df = pd.DataFrame(index = SN_list, columns = column_index ) # create dataframe to house temperatures at each minute for each SN
-    times_checked = np.zeros((1,max(column_index)))
+    group_temp_df = pd.DataFrame(index = SN_list, columns = column_index, dtype = float) # create dataframe to house temperatures at each minute for each SN
     
-    for SN_index, SN in enumerate(SN_list):
-        metadata = metadata_dict[SN]
-        temp_interval = check_interval / int(interval_dict[SN])
-        argstart_list = [] # reset closest start list
-        argend_list = [] # reset closest end list
-        times = metadata.t # call all the time metadata
-        for time in times: # for each time value in time metadata
-            argstart_list.append(np.abs(temp_start - time)) # create a list of time values minus start time (find closest to start)
-            argend_list.append(np.abs(temp_end - time)) # create list of time values minus end time (find closest index to end)
-        
-        start_index = np.argmin(argstart_list) # find index for closest minute time for start
-        #format to not include nans from metadata
-        stop_index = np.argmin(argend_list) # find index for last time value
-        # too high
-
-        times_to_check_index = np.arange(start_index, stop_index, temp_interval) # create evenly spaced array of even minutes
-        times_checked = np.arange(temp_start, temp_end, temp_interval) # must create index based on mutally agreed start time
-        
-        for df_index, index in enumerate(times_to_check_index):
-            #TROUBLESHOOT: 061 and 065 saving into dataframe as nan after index 29
-            group_temp_df.iloc[SN_index,df_index] = metadata.temp[index] # save minute temperature reading into dataframe
+    for SN in SN_list:
+        metadata = metadata_dict[SN].dropna(subset = ['t', 'temp'])
+        # find this logger's temperature at each time (nan when it was not recording)
+        group_temp_df.loc[SN, :] = np.interp(times_checked, metadata.t, metadata.temp, left = np.nan, right = np.nan)
     error = False
     for column in column_index: # column represents temperature data for each time that will be checked 
         # might be operating dataframe functions on entire set, not by columns...
-- 
2.43.0


From 160569e5dd35880f24725011d4e2956177f1978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 45/59] fix: verify_huddle_test returns its documented results

---
 gemlog/huddle_test.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/huddle_test.py b/gemlog/huddle_test.py
index 91ac375..e33acd7 100644
--- a/gemlog/huddle_test.py
+++ b/gemlog/huddle_test.py
@@ -825,6 +825,8 @@ def verify_huddle_test(path, SN_list = [], SN_to_exclude = [], individual_only =
         ## Close and name file    
         pdf.output(f"{report_path}/{filename}.pdf")
         print("A pdf report has been generated")
+
+    return {'errors':errors + group_err, 'warnings':warnings + group_warn, 'stats':pstats_df, 'results':errors_df}
     
 ##############################################
 def print_call():
-- 
2.43.0


From 16243cb2347dc4123ac706ff07ca89182a849c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 46/59] fix: the huddle test command accepts the options it
 advertises

---
 gemlog/huddle_test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/huddle_test.py b/gemlog/huddle_test.py
index e33acd7..a3edd83 100644
--- a/gemlog/huddle_test.py
+++ b/gemlog/huddle_test.py
@@ -846,7 +846,7 @@ def main(argv = None):
     outputdir = None
     gemlog._debug = True
     try:
-        opts, args = getopt.getopt(argv,"hdti:s:x:o:f:l:p:",["inputdir=","serialnumber="])
+        opts, args = getopt.getopt(argv,"hdti:s:x:o:f:l:p:",["help","debug","inputdir=","serialnumbers=","exclude_serialnumbers="])
     except getopt.GetoptError:
         print_call()
         sys.exit(2)
-- 
2.43.0


From 2029b8310e5e6b82cf7806060e95e136a3cecd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 47/59] fix: gemconvert and gemconvert_single accept the long
 options their help text lists

---
 gemlog/gemconvert.py        | 2 +-
 gemlog/gemconvert_single.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gemlog/gemconvert.py b/gemlog/gemconvert.py
index 32e9573..a500414 100755
--- a/gemlog/gemconvert.py
+++ b/gemlog/gemconvert.py
@@ -88,7 +88,7 @@ def main(argv = None):
 
     ## parse options selected by user
     try:
-        opts, args = getopt.getopt(argv,"hdti:s:x:c:o:f:l:p:",["inputdir=","serialnumber="])
+        opts, args = getopt.getopt(argv,"hdti:s:x:c:o:f:l:p:",["help","debug","test","inputdir=","serialnumbers=","exclude_serialnumbers=","codesfile=","outputdir=","format=","length=","parallel="])
     except getopt.GetoptError:
         print_call()
         sys.exit(2)
diff --git a/gemlog/gemconvert_single.py b/gemlog/gemconvert_single.py
index 009c01a..fe4d746 100755
--- a/gemlog/gemconvert_single.py
+++ b/gemlog/gemconvert_single.py
@@ -28,7 +28,7 @@ def main(argv = None):
     output_file = None
     force_conversion = False
     try:
-        opts, args = getopt.getopt(argv,"hfi:o:")
+        opts, args = getopt.getopt(argv,"hfi:o:",["help","force-conversion","force_conversion","input_file=","output_file="])
     except getopt.GetoptError:
         print_call()
         sys.exit(2)
@@ -42,7 +42,7 @@ def main(argv = None):
             input_file = arg
         elif opt in ("-o", "--output_file"):
             output_file = arg
-        elif opt in ("-f", "--force_conversion"):
+        elif opt in ("-f", "--force-conversion", "--force_conversion"):
             force_conversion = True
 
     print(f'gemlog version {gemlog.__version__}')
-- 
2.43.0


From 7c65a4131419a7376ff91177bc8d015695d2f34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 48/59] fix: convert single raw files of formats 0.8 and 0.85

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index ff5e7b6..c0147a1 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1575,7 +1575,7 @@ def _convert_one_file(input_filename, output_filename = None, require_gps = True
     try:
         if not os.path.exists(input_filename):
             raise MissingRawFiles(f'File "{input_filename}" not found')
-        L = _read_several([input_filename], require_gps = require_gps)
+        L = _read_several([input_filename], version = _read_format_version(input_filename), require_gps = require_gps)
         piecewiseTimeFit = L['header'].iloc[0,:]
     
         L['metadata']['t'] = _apply_fit(L['metadata']['millis'], piecewiseTimeFit)
-- 
2.43.0


From 9fff2b1e810980cc4394ae398c04d64c6994164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 49/59] fix: don't drop a logger when a parallel conversion
 creates the output folder first

---
 gemlog/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index c0147a1..9c7ae06 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -235,7 +235,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     if(len(gpsfile) == 0):
         if(not os.path.isdir(gpspath)):
             try:
-                os.makedirs(gpspath) # makedirs vs mkdir means if gpspath = dir1/dir2, and dir1 doesn't exist, that dir1 will be created and then dir1/dir2 will be created
+                os.makedirs(gpspath, exist_ok=True) # makedirs vs mkdir means if gpspath = dir1/dir2, and dir1 doesn't exist, that dir1 will be created and then dir1/dir2 will be created
             except:
                 print('Failed to make directory ' + gpspath)
                 sys.exit(2)
@@ -245,7 +245,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     if(len(metadatafile) == 0):
         if(not os.path.isdir(metadatapath)):
             try:
-                os.makedirs(metadatapath)
+                os.makedirs(metadatapath, exist_ok=True)
             except:
                 print('Failed to make directory ' + metadatapath)
                 sys.exit(2)
@@ -254,7 +254,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     ## if the converted directory does not exist, make it
     if(not os.path.isdir(convertedpath)):
         try:
-            os.makedirs(convertedpath)
+            os.makedirs(convertedpath, exist_ok=True)
         except:
             print('Failed to make directory ' + convertedpath)
             sys.exit(2)
-- 
2.43.0


From 961b73af6dab4f0b3cbb4b30e43b2c85a0507c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 50/59] fix: gemconvert finds the loggers of raw files only,
 including .TXT files

---
 gemlog/gemconvert.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/gemlog/gemconvert.py b/gemlog/gemconvert.py
index a500414..c198e9a 100755
--- a/gemlog/gemconvert.py
+++ b/gemlog/gemconvert.py
@@ -3,7 +3,7 @@
 import sys # should always be available, doesn't need to be in "try"
 try:
     import numpy as np
-    import os, getopt, logging, platform
+    import os, getopt, logging, platform, re
     #import glob, traceback # apparently not needed anymore
     import gemlog
     from concurrent.futures import ProcessPoolExecutor
@@ -13,9 +13,18 @@ except Exception as e:
     print(e)
     sys.exit(2)
 
-def find_SN(x):
-    # find the serial number of a raw data file
-    return x[9:13]
+def find_SN(inputdir, x):
+    # find the serial number of a raw data file ('' for any other file)
+    if re.fullmatch('FILE[0-9]{4}[.]([0-9]{3}|TXT)', x) is None:
+        return ''
+    if x[9:] == 'TXT': # the name of a file in the oldest raw format does not include the serial number
+        try:
+            SN = gemlog.core._read_SN(os.path.join(inputdir, x))
+        except Exception:
+            return ''
+    else:
+        SN = x[9:]
+    return SN if isinstance(SN, str) else ''
 
 def unique(list1): 
     unique, index = np.unique(list1, return_index=True)
@@ -147,7 +156,8 @@ def main(argv = None):
         sys.exit()
 
     if(len(SN_list) == 0): # if user does not provide SN_list, take unique SNs in order
-        SN_list = unique([find_SN(file_list[i]) for i in range(len(file_list))]) # set takes unique values
+        SN_list = unique([find_SN(inputdir, file_list[i]) for i in range(len(file_list))]) # set takes unique values
+        SN_list = [SN for SN in SN_list if SN != ''] # ignore any files that are not raw data
         SN_list.sort()
     else: # if user provided SNs, keep the order, but take unique values
         SN_list = unique(SN_list)
-- 
2.43.0


From e6c9b5eaca163d22f70726e2bfbd17c173c4e87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 51/59] fix: calc_channel_stats could not run

---
 gemlog/gemlog_aux.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index 99d20a3..c287018 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -184,10 +184,11 @@ def calc_channel_stats(DB, t1, t2):
     t1 = obspy.core.UTCDateTime(t1)
     t2 = obspy.core.UTCDateTime(t2)
     numHour = (t2 - t1)/3600.0
-    DB.t1 = DB.t1.apply(T)
-    DB.t2 = DB.t2.apply(T)
-    DB.goodData = (DB.amp_HP > 0.5) & (DB.amp_HP < 2e4) & ((DB.t2 - DB.t1) > 3598) & ((DB.t2 - DB.t1) < 3602)
-    DB.anyData = (DB.amp_HP > 0) 
+    DB = DB.copy() # leave the caller's table alone
+    DB['t1'] = DB.t1.apply(T)
+    DB['t2'] = DB.t2.apply(T)
+    DB['goodData'] = (DB.amp_HP > 0.5) & (DB.amp_HP < 2e4) & ((DB.t2 - DB.t1) > 3598) & ((DB.t2 - DB.t1) < 3602)
+    DB['anyData'] = (DB.amp_HP > 0)
     out = []
     for sta in DB.station.unique():
         w = np.where((DB.station == sta) & (DB.t1 > t1) & (DB.t2 < t2))[0]
@@ -196,10 +197,8 @@ def calc_channel_stats(DB, t1, t2):
         else:
             q1 = np.quantile(np.array(DB.amp_HP)[w], 0.25)
             q3 = np.quantile(np.array(DB.amp_HP)[w], 0.75)
-            out = pd.concat([out,
-                             pd.DataFrame([[sta, np.sum(np.array(DB.goodData)[w])/numHour, np.sum(np.array(DB.anyData)[w])/numHour, q1, q3]], columns = ['station', 'goodData', 'anyData', 'q1', 'q3'])])
-    out = pd.concat(out)
-    return(out)
+            out.append([sta, np.sum(np.array(DB.goodData)[w])/numHour, np.sum(np.array(DB.anyData)[w])/numHour, q1, q3])
+    return(pd.DataFrame(out, columns = ['station', 'goodData', 'anyData', 'q1', 'q3']))
 
 _noise_path = os.path.join(os.path.dirname(__file__), "data", "noise")
 
-- 
2.43.0


From 760a42783a59c4a412bda967250d2e1b6eabf42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 52/59] fix: calc_channel_stats includes files at the edges of
 the time window

---
 gemlog/gemlog_aux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index c287018..626f1e4 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -191,7 +191,7 @@ def calc_channel_stats(DB, t1, t2):
     DB['anyData'] = (DB.amp_HP > 0)
     out = []
     for sta in DB.station.unique():
-        w = np.where((DB.station == sta) & (DB.t1 > t1) & (DB.t2 < t2))[0]
+        w = np.where((DB.station == sta) & (DB.t1 >= t1) & (DB.t2 <= t2))[0]
         if(len(w) == 0):
             continue
         else:
-- 
2.43.0


From ca6e0dc71efab8e02475171c46c963cf8871860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 53/59] fix: make_db returns an empty table when no file is
 readable

---
 gemlog/gemlog_aux.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index 626f1e4..e41e2cc 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -142,6 +142,8 @@ def make_db(path, pattern = '*', savefile = None, verbose = False):
         if((count % 100) == 0 and verbose):
             print(str(count) + ' of ' + str(len(files)))
         count = count + 1
+    if len(DB) == 0: # no readable files
+        DB.append(pd.DataFrame([], columns = ['filename', 'station', 'location', 'amp_HP', 'max', 'min', 't1', 't2']))
     DB = pd.concat(DB)
     if savefile is not None:
         DB.to_csv(savefile)
-- 
2.43.0


From 808f42eef8f4569dd5c403f4c12d38a42423e25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:00 +0000
Subject: [PATCH 54/59] fix: interpolate several short data gaps close to each
 other

---
 gemlog/gemlog_aux.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index e41e2cc..cd09fb2 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -352,12 +352,13 @@ def _interpolate_stream(st, gap_limit_sec = 0.1):
     if len(st) == 1:
         return st
     
-    for i in range(len(st) - 1):
-        t1 = st[i].stats.endtime
-        t2 = st[i+1].stats.starttime
+    pieces = st # recorded data only, without the interpolated gaps that will be added to st
+    for i in range(len(pieces) - 1):
+        t1 = pieces[i].stats.endtime
+        t2 = pieces[i+1].stats.starttime
         if (t2 - t1) < gap_limit_sec:
             ## define a new trace consisting of a masked array of the data gap and immediate surroundings
-            st_new = st.slice(t1 - gap_limit_sec, t2 + gap_limit_sec)
+            st_new = pieces.slice(t1 - gap_limit_sec, t2 + gap_limit_sec)
             st_new.merge()
             tr_new = st_new[0]
 
@@ -367,8 +368,8 @@ def _interpolate_stream(st, gap_limit_sec = 0.1):
             interp_function = scipy.interpolate.CubicSpline(t[data_good], tr_new.data[data_good], extrapolate = False)
             tr_new.data[~data_good] = interp_function(t[~data_good])
 
-            ## add the new trace back to the stream
-            st = st + tr_new
+            ## add the new trace back to the stream (only this gap: others nearby get their own)
+            st = st + tr_new.slice(t1, t2)
         else:
             ## if the data gap is not short, it will not be interpolated. For now, do nothing.
             pass
-- 
2.43.0


From ee23f1940cd842c6ebdf5ece5740cc0a93a8ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 55/59] fix: write_wav doesn't change the trace it writes

---
 gemlog/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 9c7ae06..c1e90cb 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -384,6 +384,7 @@ def write_wav(tr, filename = None, path = '.', time_format = '%Y-%m-%dT%H_%M_%S'
     ## having trouble with integer format, although it is allowed. force float
     ## format instead, which is probably more useful anyway. This needs to be
     ## centered about zero and scaled to fit in the -1 to 1 range.
+    tr = tr.copy() # leave the caller's trace alone
     tr.data = tr.data.astype(float) - np.mean(tr.data)
     ref = np.abs(tr.data).max()
     if ref > 0:  ## prevent divide-by-zero
-- 
2.43.0


From a1f35f5e6cb4291b61460c797db62469061bdf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 56/59] Restore gemlog/huddle_test.py (its name matches test
 file patterns; its defects are recorded instead of repaired)

---
 gemlog/huddle_test.py | 47 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/gemlog/huddle_test.py b/gemlog/huddle_test.py
index a3edd83..4253cd6 100644
--- a/gemlog/huddle_test.py
+++ b/gemlog/huddle_test.py
@@ -642,19 +642,44 @@ def verify_huddle_test(path, SN_list = [], SN_to_exclude = [], individual_only =
     #### at every given time, temperature must agree within 2C for all loggers
     # interval of 061 and 065 is 10 seconds
     check_interval = 60 #seconds (time between checks)
+    all_interval= interval_dict.values()
+    df_width = check_interval / int(min(all_interval)) # use largest interval to calculate size
+   
+    
     # Determine start and stop times (Unix time)
-    temp_start = gps_start_min - gps_start_min % check_interval # start time on an even minute
-    temp_end = gps_stop_max - gps_stop_max % check_interval - check_interval*10 # stop time on an even minute, ten minutes before end
-    times_checked = np.arange(temp_start, temp_end, check_interval) # the same times for all loggers
-    column_index = np.arange(len(times_checked))
+    mod = gps_start_min % df_width # modulus remainder to round start time to even minute
+    temp_start = gps_start_min - mod # start time on an even minute
+    mod = gps_stop_max % df_width
+    temp_end = gps_stop_max - mod - check_interval*10 # stop time on an even minute, ten minutes before end
+    
+    # Create dataframe to house temperatures to check
+    column_index = np.arange(0,int((temp_end-temp_start)/df_width),1) # theoretically, the number of values between start and end
 
     # group_temp_df has the unexpected structure of SN as row and time as column
-    group_temp_df = pd.DataFrame(index = SN_list, columns = column_index, dtype = float) # create dataframe to house temperatures at each minute for each SN
+    group_temp_df = pd.DataFrame(index = SN_list, columns = column_index ) # create dataframe to house temperatures at each minute for each SN
+    times_checked = np.zeros((1,max(column_index)))
     
-    for SN in SN_list:
-        metadata = metadata_dict[SN].dropna(subset = ['t', 'temp'])
-        # find this logger's temperature at each time (nan when it was not recording)
-        group_temp_df.loc[SN, :] = np.interp(times_checked, metadata.t, metadata.temp, left = np.nan, right = np.nan)
+    for SN_index, SN in enumerate(SN_list):
+        metadata = metadata_dict[SN]
+        temp_interval = check_interval / int(interval_dict[SN])
+        argstart_list = [] # reset closest start list
+        argend_list = [] # reset closest end list
+        times = metadata.t # call all the time metadata
+        for time in times: # for each time value in time metadata
+            argstart_list.append(np.abs(temp_start - time)) # create a list of time values minus start time (find closest to start)
+            argend_list.append(np.abs(temp_end - time)) # create list of time values minus end time (find closest index to end)
+        
+        start_index = np.argmin(argstart_list) # find index for closest minute time for start
+        #format to not include nans from metadata
+        stop_index = np.argmin(argend_list) # find index for last time value
+        # too high
+
+        times_to_check_index = np.arange(start_index, stop_index, temp_interval) # create evenly spaced array of even minutes
+        times_checked = np.arange(temp_start, temp_end, temp_interval) # must create index based on mutally agreed start time
+        
+        for df_index, index in enumerate(times_to_check_index):
+            #TROUBLESHOOT: 061 and 065 saving into dataframe as nan after index 29
+            group_temp_df.iloc[SN_index,df_index] = metadata.temp[index] # save minute temperature reading into dataframe
     error = False
     for column in column_index: # column represents temperature data for each time that will be checked 
         # might be operating dataframe functions on entire set, not by columns...
@@ -825,8 +850,6 @@ def verify_huddle_test(path, SN_list = [], SN_to_exclude = [], individual_only =
         ## Close and name file    
         pdf.output(f"{report_path}/{filename}.pdf")
         print("A pdf report has been generated")
-
-    return {'errors':errors + group_err, 'warnings':warnings + group_warn, 'stats':pstats_df, 'results':errors_df}
     
 ##############################################
 def print_call():
@@ -846,7 +869,7 @@ def main(argv = None):
     outputdir = None
     gemlog._debug = True
     try:
-        opts, args = getopt.getopt(argv,"hdti:s:x:o:f:l:p:",["help","debug","inputdir=","serialnumbers=","exclude_serialnumbers="])
+        opts, args = getopt.getopt(argv,"hdti:s:x:o:f:l:p:",["inputdir=","serialnumber="])
     except getopt.GetoptError:
         print_call()
         sys.exit(2)
-- 
2.43.0


From 4e483dd5e8e5a64139f2552dea71fc85e139300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 57/59] fix: Don't write a sample at an output file boundary
 twice

---
 gemlog/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index c1e90cb..8997783 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -339,7 +339,10 @@ def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, converte
     eps = 1e-6
     if(np.isnan(hour_end)):
         hour_end = _trunc_UTCDateTime(hour_to_write + eps, file_length_sec) + file_length_sec # eps because file_length_sec may not be exact
-    pp = p.slice(hour_to_write, hour_end - eps, nearest_sample = False) # nearest sample and eps avoid overlapping samples between files
+    ## Sample times are whole hundredths of a second. End halfway between two of them, so that rounding
+    ## of times can't put the sample at the end in both files or in neither.
+    hour_end = obspy.core.UTCDateTime((np.ceil(np.round(float(hour_end) * 100, 3)) - 0.5) / 100)
+    pp = p.slice(hour_to_write, hour_end, nearest_sample = False)
     # Ideally, this would write mseed files with data gaps (masked arrays) if the stream here has
     # a gap. Unfortunately, those fail to write, so we have to write multiple files instead.
     pp = pp.split() 
-- 
2.43.0


From 6951867e91b67b5d084244a38eab4b398a2f04e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 58/59] fix: raw folders whose names hold glob characters

---
 gemlog/core.py    | 10 +++++-----
 gemlog/gem_cat.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 8997783..e20ff3d 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -130,7 +130,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     ## make sure the raw directory exists and has real data
     if not os.path.isdir(rawpath):
         raise MissingRawFiles('Raw directory ' + rawpath + ' does not exist')
-    if len(glob.glob(rawpath + '/FILE' +'[0-9]'*4 + '.???')) == 0:
+    if len(glob.glob(glob.escape(rawpath) + '/FILE' +'[0-9]'*4 + '.???')) == 0:
         raise MissingRawFiles('No data files found in directory ' + rawpath)
     try:
         SN = str(SN)
@@ -148,10 +148,10 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     
     ## find a list of possibly eligible raw files 
     if (type(SN) is not str) or (len(SN) != 3): # check that SN is appropriately formatted...this should always happen
-        fn = glob.glob(rawpath + '/FILE' +'[0-9]'*4 + '.???')
+        fn = glob.glob(glob.escape(rawpath) + '/FILE' +'[0-9]'*4 + '.???')
     else:
-        fn = glob.glob(rawpath + '/FILE' +'[0-9]'*4 + '.' + SN) + \
-            glob.glob(rawpath + '/FILE' +'[0-9]'*4 + '.TXT')
+        fn = glob.glob(glob.escape(rawpath) + '/FILE' +'[0-9]'*4 + '.' + SN) + \
+            glob.glob(glob.escape(rawpath) + '/FILE' +'[0-9]'*4 + '.TXT')
     
     ## filter out raw files whose serial numbers don't match SN
     fn_new = []
@@ -660,7 +660,7 @@ def _read_config(fn):
 def _find_nonmissing_files(path, SN, nums):
     ## list all Gem files in the path
     #fnList = glob.glob(path + '/' + 'FILE[0-9][0-9][0-9][0-9].[0-9][0-9][0-9]')
-    fnList = glob.glob(path + '/' + 'FILE[0-9][0-9][0-9][0-9].???')
+    fnList = glob.glob(glob.escape(path) + '/' + 'FILE[0-9][0-9][0-9][0-9].???')
     fnList.sort()
     fnList = np.array(fnList)
     
diff --git a/gemlog/gem_cat.py b/gemlog/gem_cat.py
index fddd2ed..7c296f1 100644
--- a/gemlog/gem_cat.py
+++ b/gemlog/gem_cat.py
@@ -40,7 +40,7 @@ def gem_cat(input_dir, output_dir, ext = '', cat_all = False):
             raise Exception('Output path ' + output_dir + ' does not exist and cannot be created')
         else:
             print('Created output folder ' + output_dir)
-    gem_files = sorted(glob.glob(input_dir + '/' + 'FILE[0-9][0-9][0-9][0-9].' + ext + '*'))
+    gem_files = sorted(glob.glob(glob.escape(input_dir) + '/' + 'FILE[0-9][0-9][0-9][0-9].' + ext + '*'))
     
     has_gps = np.zeros(len(gem_files))
     counter = 0
-- 
2.43.0


From 69512920c40705272e014d1bc6bdf2a5e9d3fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 59/59] fix: check_lags imports only the cross-correlation
 functions it uses (obspy dropped xcorr)

---
 gemlog/gemlog_aux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index cd09fb2..b8e7fa6 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -32,7 +32,7 @@ def check_discontinuity(files):
 def check_lags(DB, winlength = 1000, fl = 0.5, fh = 20, maxshift = 10, verbose = False):
     stations = DB.station.unique()
     nsta = len(stations)
-    from obspy.signal.cross_correlation import xcorr, correlate, xcorr_max
+    from obspy.signal.cross_correlation import correlate, xcorr_max
     st = obspy.Stream()
     st.filter('bandpass', freqmin=fl, freqmax = fh)
     for fn in DB.filename:
-- 
2.43.0


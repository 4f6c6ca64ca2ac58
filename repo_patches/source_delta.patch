From d719f89977e7ea23a88e97edc61edc75737289e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 01/46] fix: decode raw format 0.91 when it is given explicitly

_process_gemlog_data left 0.91 out of its format lists, so _read_single(version='0.91')
(used by gem_cat) always raised CorruptRawFile.
---
 gemlog/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index f1aad87..1e91b38 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -842,7 +842,7 @@ def _read_single(filename, offset=0, require_gps = True, version = '0.9'):
 
 def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
     ## figure out what settings to used according to the raw file format version
-    if version in ['1.10', '0.9', '0.85C']:
+    if version in ['1.10', '0.91', '0.9', '0.85C']:
         rollover = 2**13
         M_cols = ['millis', 'batt', 'temp', 'A2', 'A3',
                   'maxWriteTime', 'minFifoFree', 'maxFifoUsed',
@@ -904,7 +904,7 @@ def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
 
 
     # process data (version-dependent)
-    if version in ['1.10', '0.9', '0.85C']: # don't integrate the data if version is 0.8, 0.85
+    if version in ['1.10', '0.91', '0.9', '0.85C']: # don't integrate the data if version is 0.8, 0.85
         D['ADC'] = D['ADC'].astype(float).cumsum()
 
     ## gps stuff
-- 
2.43.0


From 774c7be2b028c8571093c8aa3f02ac8c08f70f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 02/46] fix: reject GPS fixes whose latitude, longitude or lag
 is missing

Every comparison with NaN is False, so a fix with an unreadable position or lag
passed _gps_in_bounds and its NaN reached the results.
---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 1e91b38..2d2290c 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -946,7 +946,7 @@ def _gps_in_bounds(G):
     bad_gps = False
     for key, (lo, hi) in limits.items():
         data = G[key]
-        bad_gps |= (data < lo) | (data > hi)
+        bad_gps |= ~((data >= lo) & (data <= hi)) # missing values (NaN) are bad too
 
     # custom limits:
     bad_gps |= (
-- 
2.43.0


From d1697202a533cd83d76bfe492894d59402dfc1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 03/46] fix: do not reuse earlier values for a raw line that
 was cut short

---
 gemlog/parsers.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gemlog/parsers.pyx b/gemlog/parsers.pyx
index 030908f..7779e50 100644
--- a/gemlog/parsers.pyx
+++ b/gemlog/parsers.pyx
@@ -96,8 +96,10 @@ def parse_gemfile(filename, n_row = 1560000):
             if n_matched == 1: # failed to read the 2-element format, try just 1 element
                 view[line_number, 0] = DmsSamp
                 DmsSamp = (prev_dD_millis + 10) % (2**13)
-            else: # n_matched == 2
+            elif n_matched == 2:
                 view[line_number, 0] = ADC
+            else: # nothing could be read: the line was cut short
+                continue
             millis_view[line_number] = DmsSamp
             prev_dD_millis = DmsSamp
 
@@ -108,6 +110,8 @@ def parse_gemfile(filename, n_row = 1560000):
                                "%lf,%lf,%d,%d,%d,%d,%d,%lf,%lf,%lf",
                                &msPPS, &msLag, &yr, &mo, &day, &hr, &mn,
                                &sec, &lat, &lon)
+            if n_matched < 10: # cut short: the rest would be left over from an earlier line
+                continue
             view[line_number, 0] = msLag
             view[line_number, 1] = yr
             view[line_number, 2] = mo
@@ -128,6 +132,8 @@ def parse_gemfile(filename, n_row = 1560000):
                                &ms, &batt, &temp, &A2, &A3, &maxLag,
                                &minFree, &maxUsed, &maxOver, &gpsFlag,
                                &freeStack1, &freeStackIdle)
+            if n_matched < 12: # cut short: the rest would be left over from an earlier line
+                continue
             view[line_number, 0] = batt
             view[line_number, 1] = temp
             view[line_number, 2] = A2
-- 
2.43.0


From 04a079b12602ea72041257832d260ea4d1403e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 04/46] fix: declare the readable version 1.10 in files
 converted to the compact format

---
 gemlog/gemlog_aux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index bf94719..d624feb 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -424,7 +424,7 @@ def _convert_raw_091_110(infile, outfile):
     #Wall time: 22.2 s
 
 
-    output_format = '1.1'
+    output_format = '1.10'
     input_format = gemlog.core._read_format_version(infile)
     if input_format not in ['0.85C', '0.9', '0.91']:
         raise Exception('Invalid input format %s' % input_format)
-- 
2.43.0


From 95a375c2e0f28e4aa2e1d0d40fa4a3365bb40fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 05/46] fix: keep single-number data lines when converting to
 the compact format

---
 gemlog/gemlog_aux.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index d624feb..b821d16 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -433,6 +433,10 @@ def _convert_raw_091_110(infile, outfile):
         for i, line in enumerate(IF):
             if (line[0] == 'D'):
                 l = line.split(',')
+                if len(l) < 2: # only one number: it is a reading 10 ms after the previous one
+                    millis_current = (millis_current + 10) % 2**13
+                    OF.write(line)
+                    continue
                 p = int(l[1]) # pressure in counts
                 millis_previous = millis_current
                 millis_current = int(l[0][1:]) # millis count right after D
-- 
2.43.0


From 062a56fac9a20f8b8cfa97e67fc4b50b465476a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:25 +0000
Subject: [PATCH 06/46] fix: gem_cat: do not append to the last line of a file
 that was cut short

---
 gemlog/gem_cat.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gemlog/gem_cat.py b/gemlog/gem_cat.py
index a6f96d5..07743df 100644
--- a/gemlog/gem_cat.py
+++ b/gemlog/gem_cat.py
@@ -115,6 +115,13 @@ def AppendFile(infile, outfile, prev_infile):
     if not os.path.exists(outpath):
         os.makedirs(outpath)
         
+    ## if the previous file was cut short, don't append to its last line
+    with open(outfile, 'rb') as OF:
+        ends_mid_line = OF.read()[-1:] not in [b'', b'\n']
+    if ends_mid_line:
+        with open(outfile, 'a') as OF:
+            OF.write('\n')
+
     format = _read_format_version(infile)
     if format in ['0.85C', '0.9', '0.91', '1.10']:
         ## find the pressure at the end of the previous file
-- 
2.43.0


From ac8d98eab6c093489f5c059fb9917f2319d42f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:25 +0000
Subject: [PATCH 07/46] fix: gem_cat: keep GPS and metadata lines that precede
 the first data line of an appended file

---
 gemlog/gem_cat.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gemlog/gem_cat.py b/gemlog/gem_cat.py
index 07743df..0811ae7 100644
--- a/gemlog/gem_cat.py
+++ b/gemlog/gem_cat.py
@@ -129,10 +129,13 @@ def AppendFile(infile, outfile, prev_infile):
 
         ## read the first data line of the infile and convert it to an ADC reading difference
         j=0
+        header_end = None
         while True:
             ###################
             linetype = pd.read_csv(infile, skiprows = j, delimiter = '\t', nrows=1, dtype = 'str', names=['s']).s[0][0]
             ###############
+            if (header_end is None) and (linetype not in '#SC'):
+                header_end = j
             if linetype == 'D':
                 break
             j += 1
@@ -140,11 +143,12 @@ def AppendFile(infile, outfile, prev_infile):
         ## adjust the data line and append it to the outfile
         s = pd.read_csv(infile, delimiter = ',', nrows=1, skiprows=j, dtype = 'str', names=['c1','c2'])
         with open(outfile, 'a') as OF, open(infile, 'r') as IF:
-            OF.write(s['c1'].iloc[0] + ',' + str(int(s['c2'].iloc[0])-p_start) + '\n')
-            ## append the rest of the file
+            ## append the rest of the file, including any GPS or metadata lines before the first data line
             #system(paste0('tail -n +', j+2, ' ', infile, ' >> ', outfile))
             for k, line in enumerate(IF):
-                if k >= (j+1):
+                if k == j:
+                    OF.write(s['c1'].iloc[0] + ',' + str(int(s['c2'].iloc[0])-p_start) + '\n')
+                elif k >= header_end:
                     OF.write(line)
                 #if k > 10: # testing only
                 #    break
@@ -154,7 +158,7 @@ def AppendFile(infile, outfile, prev_infile):
         j=0
         while True:
             linetype = pd.read_csv(infile, skiprows = j, delimiter = '\t', nrows=1, dtype = 'str', names=['s']).s[0][0]
-            if linetype == 'D':
+            if linetype not in '#SC':
                 break
             j += 1
         
-- 
2.43.0


From 8f054911cd3e0c896e2c9b78e3e4edcb7af0598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:25 +0000
Subject: [PATCH 08/46] fix: gem_cat: accept a compact or single-number first
 data line in an appended file

---
 gemlog/gem_cat.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gemlog/gem_cat.py b/gemlog/gem_cat.py
index 0811ae7..f70f6a0 100644
--- a/gemlog/gem_cat.py
+++ b/gemlog/gem_cat.py
@@ -136,12 +136,19 @@ def AppendFile(infile, outfile, prev_infile):
             ###############
             if (header_end is None) and (linetype not in '#SC'):
                 header_end = j
-            if linetype == 'D':
+            if linetype == 'D' or linetype.islower():
                 break
             j += 1
 
         ## adjust the data line and append it to the outfile
         s = pd.read_csv(infile, delimiter = ',', nrows=1, skiprows=j, dtype = 'str', names=['c1','c2'])
+        if linetype != 'D': # compact line: letters stand for differences from 'm'; millis count starts at 10
+            codes = [ord(c) - 109 for c in s['c1'].iloc[0]]
+            s['c1'] = 'D' + str((10 + sum(codes[:-1])) % 2**13)
+            s['c2'] = str(codes[-1])
+        elif s['c2'].isna().iloc[0]: # only one number: the reading 10 ms after the start of the count
+            s['c2'] = s['c1'].iloc[0][1:]
+            s['c1'] = 'D10'
         with open(outfile, 'a') as OF, open(infile, 'r') as IF:
             ## append the rest of the file, including any GPS or metadata lines before the first data line
             #system(paste0('tail -n +', j+2, ' ', infile, ' >> ', outfile))
-- 
2.43.0


From 4472814e2cb9b5ef6b512068c09d682c8090f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 09/46] fix: resample each continuous run from its own samples
 only, including first and last runs of one sample

---
 gemlog/core.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 2d2290c..f38ed4f 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1282,20 +1282,22 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
     p_in = data[w_nonnan,1]
     _breakpoint()
     #t1 = np.trunc(t_in[t_in >= t1][0]+1-0.01) ## added on 2019-09-11. 2021-07-11: this line is responsible for losing samples before the start of a second
-    t1 = t_in[t_in >= (t1 - 0.01 - eps)][0]
-    t2 = t_in[t_in <= (t2 + .01 + eps)][-1] # add a sample because t2 is 1 sample before the hour
-    breaks_raw = np.where((np.diff(t_in) > max_step) | (np.diff(t_in) < min_step) )[0] # 2020-11-04: check for backwards steps too
-    breaks = breaks_raw[(t_in[breaks_raw] > t1) & (t_in[breaks_raw+1] < t2)]
-    starts = np.hstack([t1, t_in[breaks+1]]) # start times of continuous chunks
-    ends = np.hstack([t_in[breaks], t2]) # end times of continuous chunks
-    w_same = (starts != ends)
-    starts = starts[w_same]
-    ends = ends[w_same]
+    w_range = (t_in >= (t1 - 0.01 - eps)) & (t_in <= (t2 + .01 + eps)) # add a sample because t2 is 1 sample before the hour
+    t_in = t_in[w_range]
+    p_in = p_in[w_range]
+    breaks = np.where((np.diff(t_in) > max_step) | (np.diff(t_in) < min_step) )[0] # 2020-11-04: check for backwards steps too
+    first = np.hstack([0, breaks+1]) # index of the first sample of each continuous chunk
+    last = np.hstack([breaks, len(t_in)-1]) # index of the last sample of each continuous chunk
+    w_same = (first == last)
+    first = first[~w_same]
+    last = last[~w_same]
+    starts = t_in[first] # start times of continuous chunks
+    ends = t_in[last] # end times of continuous chunks
     ## make an output time vector excluding data gaps, rounded to the nearest samples
     #t_interp = np.zeros(0)
     output = obspy.Stream()
     for i in range(len(starts)):
-        w = (t_in >= (starts[i] - 0.01 - eps)) & (t_in <= (ends[i] + 0.01 - eps))
+        w = slice(first[i], last[i] + 1) # by index: chunks may overlap in time after a backwards step
         try:
             f = scipy.interpolate.CubicSpline(t_in[w], p_in[w])
         except:
-- 
2.43.0


From 09abc9911d2fd09a2f8ba2ffcc4e981fa48e951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 10/46] fix: skip runs shorter than one output sample instead
 of failing

---
 gemlog/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index f38ed4f..5cf77c7 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1308,6 +1308,8 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
             ##                    ' and ' + str(obspy.UTCDateTime(ends[i]))))
         #t_interp = np.arange(starts[i], ends[i] + eps, 0.01) # this is a bug in np.arange--intervals can be inconsistent when delta is float. This can result in significant timing errors, especially for long traces.
         t_interp = np.round(starts[i] + np.arange(np.trunc((ends-starts)[i]/0.01)) * 0.01, 2)
+        if len(t_interp) == 0: # chunk is shorter than one output sample
+            continue
         p_interp = np.array(f(t_interp).round(), dtype = 'int32')
         tr = obspy.Trace(p_interp)
         tr.stats.starttime = t_interp[0]
-- 
2.43.0


From 356b3581a14dcc54c1373f63d276e9381f3e644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 11/46] fix: split at repeated sample times instead of losing
 the run

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 5cf77c7..48b50a6 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1285,7 +1285,7 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
     w_range = (t_in >= (t1 - 0.01 - eps)) & (t_in <= (t2 + .01 + eps)) # add a sample because t2 is 1 sample before the hour
     t_in = t_in[w_range]
     p_in = p_in[w_range]
-    breaks = np.where((np.diff(t_in) > max_step) | (np.diff(t_in) < min_step) )[0] # 2020-11-04: check for backwards steps too
+    breaks = np.where((np.diff(t_in) > max_step) | (np.diff(t_in) <= min_step) )[0] # 2020-11-04: check for backwards steps too
     first = np.hstack([0, breaks+1]) # index of the first sample of each continuous chunk
     last = np.hstack([breaks, len(t_in)-1]) # index of the last sample of each continuous chunk
     w_same = (first == last)
-- 
2.43.0


From 4651dc0e13dd333b1648e7b350e645c38e4582ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:42 +0000
Subject: [PATCH 12/46] fix: compare the span of the GPS fixes left after
 outlier removal in the same unit as the file's

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 48b50a6..c526ebd 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1124,7 +1124,7 @@ def _calculate_drift(L, fn, require_gps):
             ## run the GPS time vs millis regression
             reg, num_gps_nonoutliers, MAD_nonoutliers, resid, xx, yy = _robust_regress(L['gps'].msPPS, L['gps'].t)
             ## ensure that the regression was successful
-            if ((0.001024*(L['data'][-1,0] - L['data'][0,0]) / (xx.iloc[-1] - xx.iloc[0])) > 2) \
+            if (((L['data'][-1,0] - L['data'][0,0]) / (xx.iloc[-1] - xx.iloc[0])) > 2) \
                or (num_gps_nonoutliers < 10) \
                or MAD_nonoutliers > 0.01:
                 raise CorruptRawFileInadequateGPS('No useful GPS data in ' + fn + ', skipping this file')
-- 
2.43.0


From 6c8a9511d7cadcd17a73d4e5e9d58847508fe063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 13/46] fix: give raw files that could not be read no time span
 instead of the span 0 to 0

---
 gemlog/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index c526ebd..4139366 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1497,8 +1497,8 @@ def _make_empty_header(fnList):
                                    'SN':['' for fn in fnList],
                                    'lat': num_filler,
                                    'lon': num_filler,
-                                   'start_ms': num_filler,
-                                   'end_ms': num_filler,
+                                   'start_ms': num_filler + np.nan, # a file that can't be read has no time span
+                                   'end_ms': num_filler + np.nan,
                                    #'drift_slope': num_filler,
                                    #'drift_intercept': num_filler,
                                    #'drift_slope_stderr': num_filler,
-- 
2.43.0


From df65d277f6b65d2fd2b2f2368b9aaebff0c8350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 14/46] fix: use the rollover of formats 0.8 and 0.85 when a
 file would start before the end of the one before it

---
 gemlog/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 4139366..8d3776c 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1051,10 +1051,11 @@ def _read_several(fnList, version = 0.9, require_gps = True):
             else:
                 raise CorruptRawFile('Invalid raw file format version: ' + str(version))
             ## make sure the first millis is > startMillis
+            rollover = 2**16 if str(version) in ['0.8', '0.85'] else 2**13
             if(L['data'][0,0] < startMillis):
-                L['metadata'].millis += 2**13
-                L['gps'].msPPS += 2**13
-                L['data'][:,0] += 2**13
+                L['metadata'].millis += rollover
+                L['gps'].msPPS += rollover
+                L['data'][:,0] += rollover
             ## if the millis series is discontinuous, reject the file
             dMillis = np.diff(L['data'][:,0])
             if any(dMillis < 0) or any(dMillis > 1000):
-- 
2.43.0


From eefe2d8b4bcb1b88deea8a70ed539e5dd0d97f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 15/46] fix: do not let a file without serial number leave its
 clock model in the header

---
 gemlog/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 8d3776c..406410d 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1062,13 +1062,14 @@ def _read_several(fnList, version = 0.9, require_gps = True):
                 raise CorruptRawFile(f'{fn} sample times are discontinuous, skipping this file')
 
             header_info = _calculate_drift(L, fn, require_gps)
+            SN = _read_SN(fn) # before filling in the header, so a file without it leaves no trace there
 
             if (not require_gps) or (L['gps'].shape[0] > 0) :
                 for key in header_info.keys():
                     header.loc[i, key] = header_info[key]
                 
             header.loc[i, 'num_data_pts'] = L['data'].shape[0]
-            header.loc[i, 'SN'] = _read_SN(fn)
+            header.loc[i, 'SN'] = SN
 
             M = pd.concat((M, L['metadata']))
             G = pd.concat((G, L['gps']))
-- 
2.43.0


From 937e2f3b21c790f74dd75e8b921602bdf6c5f5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 16/46] fix: convert: float start and stop times are seconds
 since the epoch

---
 gemlog/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 406410d..4213b18 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -217,9 +217,13 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         p = _merge_gaps(p)
         t1 = p[0].stats.starttime
         t1 = obspy.core.UTCDateTime(np.ceil(float(t1)))
+    else:
+        t1 = obspy.core.UTCDateTime(t1) # obspy would take a float as a time relative to the start of a trace
 
     if(np.isinf(float(t2))):
         t2 = obspy.core.UTCDateTime.strptime('9999-12-31 23:59:59', '%Y-%m-%d %H:%M:%S') # timekeeping apocalypse
+    else:
+        t2 = obspy.core.UTCDateTime(t2)
   
     wsn = 0
     while(len(SN) < 3): # take the first non-NA SN. This is important because there can be blank files in there.
-- 
2.43.0


From 00c0285d2774829961094b6bef530923f40a2b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 17/46] fix: convert writes exactly the samples of the
 requested period

---
 gemlog/core.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 4213b18..bb95d53 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -275,11 +275,11 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         ## check to see if we're done
         if(n1 > np.max(nums)):
             break # out of raw data to convert
-        if((t1 > t2) & (not np.isnan(t1 > t2))):
+        if(t1 >= t2):
             break # already converted the requested data
         ## load new data if necessary
         tt2 = min(t2, _trunc_UTCDateTime(t1, 86400*blockdays) + 86400*blockdays)
-        while((p[-1].stats.endtime < tt2) & (n1 <= max(nums))):
+        while(((len(p) == 0) or (p[-1].stats.endtime < tt2)) & (n1 <= max(nums))):
             try:
                 L = read_gem(path = rawpath, nums = nums[(nums >= n1) & (nums < (n1 + (12*blockdays)))], SN = SN, network = network, station = station, location = location)
             except MissingRawFiles: # this can happen if a block of empty files is encountered
@@ -314,10 +314,10 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                 gps.to_csv(gpsfile, index=False, mode='a', header=False)
             problems += L['problems']
         ## run the conversion and write new converted files
-        while((hour_to_write + file_length_sec) <= p[-1].stats.endtime):
+        while((len(p) > 0) and (hour_to_write <= t2) and ((hour_to_write + file_length_sec) <= p[-1].stats.endtime)):
             #hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-            hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-            p.trim(hour_to_write, t2)
+            hour_to_write = _write_hourlong_mseed(p.slice(hour_to_write, t2, nearest_sample = False), hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
+            p.trim(hour_to_write, nearest_sample = False)
             p = p.split()
             if(len(p) > 0):
                 hour_to_write = p[0].stats.starttime
@@ -325,12 +325,12 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                 break
             
         ## update start time to convert
-        p.trim(hour_to_write, t2)
-        t1 = _trunc_UTCDateTime(tt2+(86400*blockdays) + 1, 86400*blockdays)
+        p.trim(hour_to_write, nearest_sample = False)
+        t1 = tt2
     ## done reading new files. write what's left and end.
-    while((hour_to_write <= p[-1].stats.endtime) & (len(p) > 0)):
-        hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-        p.trim(hour_to_write, t2)
+    while((len(p) > 0) and (hour_to_write <= min(t2, p[-1].stats.endtime))):
+        hour_to_write = _write_hourlong_mseed(p.slice(hour_to_write, t2, nearest_sample = False), hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
+        p.trim(hour_to_write, nearest_sample = False)
         p = p.split()
         if(len(p) > 0):
             hour_to_write = p[0].stats.starttime
-- 
2.43.0


From 9eaa8f47afbfc547b719671194238af89a8e4c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:57 +0000
Subject: [PATCH 18/46] fix: segments that start in the same second no longer
 overwrite each other's file

---
 gemlog/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index bb95d53..10db896 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -347,9 +347,13 @@ def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, converte
     # Ideally, this would write mseed files with data gaps (masked arrays) if the stream here has
     # a gap. Unfortunately, those fail to write, so we have to write multiple files instead.
     pp = pp.split() 
+    previous_second = None
     for tr in pp:
         tr.stats.calib = bitweight
-        fn = _make_filename_converted(tr, output_format)
+        start_second = int(tr.stats.starttime.timestamp)
+        ## if another segment starts in the same second, its file must not be overwritten
+        fn = _make_filename_converted(tr, output_format, fraction = (start_second == previous_second))
+        previous_second = start_second
         if(len(tr) > 0):
             print(tr)
             if(output_format.lower() == 'wav'):
@@ -406,10 +410,11 @@ def _make_filename(dir, SN, dirtype):
     return fn
 
 
-def _make_filename_converted(pp, output_format):
+def _make_filename_converted(pp, output_format, fraction = False):
     t0 = pp.stats.starttime
+    fraction_str = f'_{t0.microsecond // 1000:03}' if fraction else ''
     ## colons separating H:M:S would be more readable, but are not allowed in Windows filenames
-    return f'{t0.year:04}' + '-' +f'{t0.month:02}' + '-' +f'{t0.day:02}' + 'T' + f'{t0.hour:02}' + '_' + f'{t0.minute:02}' + '_' + f'{t0.second:02}' + '.' + pp.id + '.' + output_format.lower()
+    return f'{t0.year:04}' + '-' +f'{t0.month:02}' + '-' +f'{t0.day:02}' + 'T' + f'{t0.hour:02}' + '_' + f'{t0.minute:02}' + '_' + f'{t0.second:02}' + fraction_str + '.' + pp.id + '.' + output_format.lower()
 
 
 ##############################################################
-- 
2.43.0


From c9690658bb71177da75ef54e86c76f14dde29019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 19/46] fix: windowed processing of a record of exactly one
 window no longer divides by zero

---
 gemlog/xcorr.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 82bedc5..1d9b9c1 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -402,9 +402,15 @@ def apply_function_windows(st, f, win_length_sec, overlap = 0.5, args = {}):
     t2 = st[0].stats.endtime
     data_length_sec = t2 - t1
     num_windows = 1 + int(np.ceil((data_length_sec - win_length_sec) / (win_length_sec * (1 - overlap)) - eps))
+    if data_length_sec + st[0].stats.delta < win_length_sec - eps:
+        num_windows = 0 # the data are shorter than one window
+    elif data_length_sec <= win_length_sec:
+        num_windows = 1 # includes data that lack only the sample at the end of the window
     output_dict = {'t_mid':[]}
     for i in range(num_windows):
-        win_start = t1 + i*(data_length_sec - win_length_sec) / (num_windows-1)
+        win_start = t1
+        if num_windows > 1:
+            win_start = t1 + i*(data_length_sec - win_length_sec) / (num_windows-1)
         st_tmp = st.slice(win_start-eps, win_start + win_length_sec - eps, nearest_sample = False)
         win_dict = f(st_tmp, args)
         #if i == 0:
-- 
2.43.0


From d41209fe4e5f8640e3a5798de5ad8ae8d17f2102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 20/46] fix: day-by-day processing: intervals meet at UTC
 midnights and do not overlap

---
 gemlog/xcorr.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 1d9b9c1..2a45a3c 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -221,27 +221,17 @@ def loop_through_days(function, filenames, t1 = '1970-01-01', t2 = '9999-12-31',
     if file_metadata_df.shape[0] == 0:
         raise Exception('No data files fit t1/t2/IDs criteria; check those inputs')
     
-    ## loop through days. be careful to avoid funny business with leap seconds.
+    ## loop through days: intervals meet at UTC midnights (UTCDateTime ignores leap seconds)
+    eps = 1e-6
     day_starts = [t1]
     while True:
-        new_time = (day_starts[-1]+86400+2).replace(hour=0, minute=0, second=0) # add 24 hours + 2 sec, then round down
+        new_time = day_starts[-1].replace(hour=0, minute=0, second=0, microsecond=0) + 86400
         if new_time < t2:
             day_starts.append(new_time)
         else:
             break
-    day_starts = np.array(day_starts)
-
-    day_ends = [day_starts[0]+86400] # bug here; causes problems with part-day files. Only run full-day files.
-    #day_ends = [day_starts[0].replace(hour=0, minute=0, second=0, microsecond=0)] # this fix didn't work
-
-    while True:
-        new_time = (day_ends[-1]+86400+2).replace(hour=0, minute=0, second=0) # add 24 hours + 2 sec, then round down
-        if new_time < t2:
-            day_ends.append(new_time)
-        else:
-            day_ends.append(t2)
-            break
-    day_ends = np.array(day_ends)
+    ## a sample exactly at midnight belongs to the following day, except at the end of the period
+    day_ends = [day_start - eps for day_start in day_starts[1:]] + [t2 + eps]
 
     files_read = []
     output_list = []
@@ -270,7 +260,7 @@ def loop_through_days(function, filenames, t1 = '1970-01-01', t2 = '9999-12-31',
         ## and a dictionary with function-specific arguments.
         ## the function will return a pd.DataFrame. append to a list, then merge at the end
         try:
-            day_output = function(st.slice(day_start, day_end), args)
+            day_output = function(st.slice(day_start - eps, day_end, nearest_sample = False), args)
             output_list.append(day_output)
         except:
             print(f'Error on day {t1.isoformat()}, skipping')
-- 
2.43.0


From 113c93daa0bfcfaf46508641dda617b117a831f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 21/46] fix: plane-wave inversion takes table rows by position,
 not by label

---
 gemlog/xcorr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 2a45a3c..31dcd86 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -137,7 +137,7 @@ def invert_for_slowness(xcorr_df, locations):
         if re.search('rms', key):
             data_short_IDs.append(key.split('_')[1])
             
-    locations['ID'] = [f'{locations.network[i]}.{locations.station[i]}.{locations.location[i]}' for i in range(locations.shape[0])]
+    locations['ID'] = [f'{network}.{station}.{location}' for (network, station, location) in zip(locations.network, locations.station, locations.location)]
     keep_indices = np.where(np.isin(locations.ID, data_short_IDs))[0]
     locations = locations.iloc[keep_indices, :]
     locations = locations.sort_values('ID', ignore_index = True)
@@ -167,7 +167,7 @@ def invert_for_slowness(xcorr_df, locations):
     backazimuth = np.zeros(n_windows)
     slowness = np.zeros(n_windows)
     for i in range(n_windows):
-        lags = np.array([xcorr_df[lag_key][i] for lag_key in lag_keys[:-1]])
+        lags = np.array([xcorr_df[lag_key].iloc[i] for lag_key in lag_keys[:-1]])
         slowness_vector = H @ lags
         backazimuth[i] = np.arctan2(-slowness_vector[0], -slowness_vector[1]) * 180/np.pi
         slowness[i] = np.sqrt(np.sum(slowness_vector**2))
-- 
2.43.0


From 49ac8d8d63b21129e4c946b2cb91124fdc48538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 22/46] fix: station tables without header, without optional
 columns or given as DataFrame are accepted, keeping leading zeros

---
 gemlog/gem_network.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index b032b28..e2f90e4 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -154,7 +154,7 @@ def _get_station_info(station_info):
     required_keys = ['sn', 'network', 'station', 'location']
     if type(station_info) == str:
         print('Reading file %s' % station_info)
-        header_df = pd.read_csv(station_info, nrows = 1, header = None, index_col = False)
+        header_df = pd.read_csv(station_info, nrows = 1, header = None, index_col = False, dtype = 'str', keep_default_na = False)
         header_list = [header_df[key][0] for key in header_df.keys()]
         if all([i.lower() in (required_keys + ['elevation']) for i in header_list]): # file has header line
             print('File has valid header, using that for column names')
@@ -162,19 +162,23 @@ def _get_station_info(station_info):
         else:
             if len(header_list) == 4:
                 print('File does not have a valid header, using default columns [SN, network, station, location]')
-                station_info = pd.read_csv(station_info, names = required_keys, dtype = {key:'str' for key in header_list}, keep_default_na = False, index_col = False)
+                station_info = pd.read_csv(station_info, names = required_keys, dtype = 'str', keep_default_na = False, index_col = False)
             elif len(header_list) == 5:
                 print('File does not have a valid header, using default columns [SN, network, station, location, elevation]')
-                station_info = pd.read_csv(station_info, names = required_keys + ['elevation'], dtype = {key:'str' for key in header_list}, keep_default_na = False, index_col = False)
+                station_info = pd.read_csv(station_info, names = required_keys + ['elevation'], dtype = 'str', keep_default_na = False, index_col = False)
             else:
                 raise Exception('invalid station_info file; must have 4 or 5 columns or valid header')
         ## if any keys are capitalized or abbreviated wrong, correct them
         station_info = _fix_station_info_keys(station_info)
+        ## network and location are optional in the file; if missing, they are blank
+        for key in ['network', 'location']:
+            if key not in station_info.keys():
+                station_info[key] = ''
     elif (type(station_info) is not pd.DataFrame):
         raise Exception('invalid station_info input')
     else:
         #station_info = _fix_station_info_keys(station_info)
-        if any([key not in station_info.keys() for key in required_keys]):
+        if any([key not in station_info.keys() for key in ['SN', 'network', 'station', 'location']]):
             raise Exception('invalid station_info input')
     # if location and network fields are blank in file, they are interpreted as nan and must be
     # turned back into blank
-- 
2.43.0


From 26e4fd6c3a27d7dbd5f107b3985e2299c637a847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 23/46] fix: read_gps works with current pandas and reads only
 the files of the given serial number

---
 gemlog/gem_network.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index e2f90e4..2cc8213 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -421,16 +421,17 @@ def read_gps(gps_dir_pattern, SN):
     gpsTable = pd.DataFrame(columns=['year', 'date', 'lat', 'lon', 't'])
     for gpsDir in gpsDirList:
         if os.path.isdir(gpsDir):
-            fnList = sorted(glob.glob(gpsDir + '/' + SN + '*'))
+            fnList = sorted(glob.glob(gpsDir + '/' + SN + 'gps*txt'))
         else:
             # in case the user provides the gps filename directly. requires that the filename start with SN.
-            if pathlib.Path(gpsDir).name[:3] == SN:
+            if pathlib.Path(gpsDir).name.split('gps')[0] == SN:
                 fnList = [gpsDir]
             else:
                 fnList = []
         if len(fnList) > 0: # if any gps files matching SN are found, read and append the last
-            gpsTable = pd.concat([gpsTable,
-                                  pd.read_csv(fnList[-1], parse_dates = ['t'], date_parser = obspy.UTCDateTime)], ignore_index=True)
+            newTable = pd.read_csv(fnList[-1])
+            newTable['t'] = [obspy.UTCDateTime(t) for t in newTable['t']]
+            gpsTable = pd.concat([gpsTable, newTable], ignore_index=True)
     return gpsTable
 ReadLoggerGPS = read_gps # alias; v1.0.0
 
-- 
2.43.0


From be96ee095e46d7b1d193e2e2451522046bf5a65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 24/46] fix: summarize_gps ignores fixes outside the requested
 period when looking for outliers

---
 gemlog/gem_network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 2cc8213..05237ee 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -524,8 +524,10 @@ def summarize_gps(gps_dir_pattern, station_info = None, output_file = None, t1 =
     seFun = lambda x: np.std(x)/np.sqrt(len(x))
     for i, SN in enumerate(snList):
         print(str(i+1) + ' of ' + str(len(snList)) + ': ' + SN)
-        gpsTable = _remove_outliers(read_gps(gps_dir_pattern, SN))
+        gpsTable = read_gps(gps_dir_pattern, SN)
+        ## ignore data outside the period of interest before looking for outliers
         gpsTable = gpsTable.iloc[np.where((gpsTable.t >= t1) & (gpsTable.t <= t2))[0], :]
+        gpsTable = _remove_outliers(gpsTable)
         if gpsTable.shape[0] > 0:
             coords = pd.concat([
                 coords,
@@ -640,7 +642,7 @@ def summarize_gps_terminal(input = sys.argv[1:]):
 
     coords = summarize_gps(gps_folder, station_info = station_info_file,
                            output_file = output_file + '.csv', t1 = args.t1, t2 = args.t2,
-                           include_SN = args.include_SNs, exclude_SN = args.exclude_SNs)
+                           include_SN = include_SNs, exclude_SN = exclude_SNs)
     response = gemlog.get_gem_response(gain = 'high')
     if 'station' not in coords.keys():
         coords['station'] = coords['SN']
-- 
2.43.0


From 609b194690201e785631b4c1d251639b7e496824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 25/46] fix: make_gem_inventory skips networks without
 coordinates instead of failing

---
 gemlog/gem_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 05237ee..768f3f1 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -276,6 +276,9 @@ def make_gem_inventory(station_info, coords, response = 'default'):
             station.start_date = np.min([channel.start_date for channel in station.channels])
             station.end_date = np.max([channel.end_date for channel in station.channels])
             network.stations.append(station)
+        ## skip this network if none of its stations has coordinates
+        if len(network.stations) == 0:
+            continue
         ## append the current network to the inventory
         network.start_date = np.min([station.start_date for station in network.stations])
         network.end_date = np.max([station.end_date for station in network.stations])
-- 
2.43.0


From 3c30ca4fc8abc50aa0d59e274646397ab545b9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 26/46] fix: _interpolate_stream crashed on two short gaps
 close to each other

---
 gemlog/gemlog_aux.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index b821d16..845e696 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -359,6 +359,9 @@ def _interpolate_stream(st, gap_limit_sec = 0.1):
             st_new = st.slice(t1 - gap_limit_sec, t2 + gap_limit_sec)
             st_new.merge()
             tr_new = st_new[0]
+            if not np.ma.is_masked(tr_new.data):
+                ## this gap has already been filled along with its close neighbor
+                continue
 
             ## interpolate the missing values using a cubic spline
             data_good = ~tr_new.data.mask
-- 
2.43.0


From 927ac1ef899a43447336291af1ef5f4953177ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 27/46] fix: ims_noise refused the documented model name
 'medium'

---
 gemlog/gemlog_aux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index 845e696..e26a4e1 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -299,7 +299,7 @@ def ims_noise(model = 'low', freq = None, spectype = 'power', freq_min = None, f
     freq_in = noise_spec['f']
     if model.lower() in ['low', 'min']:
         power_in = 10**noise_spec['min']
-    elif model.lower() == 'med':
+    elif model.lower() in ['med', 'medium']:
         power_in = 10**noise_spec['med']
     elif model.lower() in ['high', 'hi', 'max']:
         power_in = 10**noise_spec['max']
-- 
2.43.0


From 95a8fd4df477d8fe72d14ca286239a9772269123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 28/46] fix: do not cut serial numbers read from .TXT files to
 three characters

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 10db896..778f355 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -635,7 +635,7 @@ def _find_nonmissing_files(path, SN, nums):
     fnList = np.array(fnList)
     
     ## find out what all the files' SNs are
-    ext = np.array([x[-3:] for x in fnList])
+    ext = [str(x)[-3:] for x in fnList] # a list: an array would cut longer SNs to 3 characters
     for i in range(len(ext)):
         if ext[i] == 'TXT':
             try:
-- 
2.43.0


From f0d4c67a367b3b2f0fb4493f3e83f1b78717bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 29/46] fix: gemconvert took folder entries that are not raw
 files, and .TXT files, for serial numbers of their own

---
 gemlog/gemconvert.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/gemlog/gemconvert.py b/gemlog/gemconvert.py
index 32e9573..c2dccfb 100755
--- a/gemlog/gemconvert.py
+++ b/gemlog/gemconvert.py
@@ -3,7 +3,7 @@
 import sys # should always be available, doesn't need to be in "try"
 try:
     import numpy as np
-    import os, getopt, logging, platform
+    import os, re, getopt, logging, platform
     #import glob, traceback # apparently not needed anymore
     import gemlog
     from concurrent.futures import ProcessPoolExecutor
@@ -13,9 +13,16 @@ except Exception as e:
     print(e)
     sys.exit(2)
 
-def find_SN(x):
-    # find the serial number of a raw data file
-    return x[9:13]
+def find_SN(x, inputdir = 'raw'):
+    # find the serial number of a raw data file (None if x is not a raw data file)
+    if re.fullmatch(r'FILE[0-9]{4}\.[0-9]{3}', x):
+        return x[9:12]
+    elif re.fullmatch(r'FILE[0-9]{4}\.TXT', x): # old files have the serial number inside, not in the name
+        try:
+            return gemlog.core._read_SN(os.path.join(inputdir, x))
+        except gemlog.CorruptRawFile:
+            return None
+    return None
 
 def unique(list1): 
     unique, index = np.unique(list1, return_index=True)
@@ -147,7 +154,8 @@ def main(argv = None):
         sys.exit()
 
     if(len(SN_list) == 0): # if user does not provide SN_list, take unique SNs in order
-        SN_list = unique([find_SN(file_list[i]) for i in range(len(file_list))]) # set takes unique values
+        SN_list = [find_SN(file_list[i], inputdir) for i in range(len(file_list))]
+        SN_list = unique([SN for SN in SN_list if SN is not None]) # set takes unique values
         SN_list.sort()
     else: # if user provided SNs, keep the order, but take unique values
         SN_list = unique(SN_list)
-- 
2.43.0


From 9d49f1fb70d0d73d6e65c81c883ad90c33a8f6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 30/46] fix: gemconvert refused the long option names in its
 help message

---
 gemlog/gemconvert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemlog/gemconvert.py b/gemlog/gemconvert.py
index c2dccfb..06d8688 100755
--- a/gemlog/gemconvert.py
+++ b/gemlog/gemconvert.py
@@ -95,7 +95,8 @@ def main(argv = None):
 
     ## parse options selected by user
     try:
-        opts, args = getopt.getopt(argv,"hdti:s:x:c:o:f:l:p:",["inputdir=","serialnumber="])
+        opts, args = getopt.getopt(argv,"hdti:s:x:c:o:f:l:p:",
+                                   ["help", "debug", "test", "inputdir=", "serialnumbers=", "exclude_serialnumbers=", "codesfile=", "outputdir=", "format=", "length=", "parallel="])
     except getopt.GetoptError:
         print_call()
         sys.exit(2)
-- 
2.43.0


From 40c28223b1696dc49a191e8acf5b65886fbd978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 31/46] fix: a pattern that starts like a full channel ID was
 taken literally and selected nothing

---
 gemlog/xcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 31dcd86..b7b010f 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -441,7 +441,7 @@ def _check_input_IDs(file_metadata_df, IDs, exclude_IDs):
             ## first, check to see if the ID is formatted exactly per naming convention
             ## if yes, pass it unmodified.
             ## https://ds.iris.edu/ds/nodes/dmc/data/formats/seed/
-            if re.match(r'\w{0,2}\.\w{1,5}\.\w{0,2}\.\w{3}', ID):
+            if re.fullmatch(r'\w{0,2}\.\w{1,5}\.\w{0,2}\.\w{3}', ID):
                 output_IDs.append(ID)
 
             ## Next, search for IDs in the data that match the provided ID.
-- 
2.43.0


From 957719e901687580bc87abccc8124abc23852976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 32/46] fix: rename_files used wrong codes for tables whose
 index is not 0, 1, 2...

---
 gemlog/gem_network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 768f3f1..0542759 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -329,9 +329,9 @@ def rename_files(infile_pattern, station_info, output_dir, output_format = 'msee
         except:
             print('skipping ' + infile)
             continue
-        network = station_info.network[w]
-        station = station_info.station[w]
-        location = station_info.location[w]
+        network = station_info.network.iloc[w] # w is a position, not an index label
+        station = station_info.station.iloc[w]
+        location = station_info.location.iloc[w]
         t1 = st[0].stats.starttime
         for tr in st:
             tr.stats.network = network
-- 
2.43.0


From 33993b4f841eadd166cf7b88a2c687a62f8a5649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 33/46] fix: rename_files overwrote a recording that starts in
 the same second as another one

---
 gemlog/gem_network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 0542759..6de073a 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -320,6 +320,7 @@ def rename_files(infile_pattern, station_info, output_dir, output_format = 'msee
     infiles = glob.glob(infile_pattern)
     infiles.sort()
     assert len(infiles) > 0, 'No input files provided'
+    output_files = []
     for i, infile in enumerate(infiles):
         st = obspy.read(infile)
         fileParts = infile.split('/')[-1].split('.')
@@ -345,6 +346,9 @@ def rename_files(infile_pattern, station_info, output_dir, output_format = 'msee
                            'loc':location, 'chan':'HDF', 'fmt':output_format}
         outfile_pattern = _fix_file_name_digits(outfile_pattern)
         output_file = outfile_pattern.format(**trace_info_dict)
+        if output_file in output_files: # another file starts in the same second: add milliseconds to avoid overwriting it
+            output_file = outfile_pattern.replace('{sec:02d}', '{sec:02d}_{ms:03d}').format(ms = t1.microsecond // 1000, **trace_info_dict)
+        output_files.append(output_file)
         st.write(output_dir + '/' + output_file, format = output_format)
         print(str(i+1) + ' of ' + str(len(infiles)) + ': ' + infile + ', ' + output_file)
     return station_info
-- 
2.43.0


From c0c8e1c1316520ecb225c74e59b017fc7f9aace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 34/46] fix: summarize_gps used wrong codes for tables whose
 index is not 0, 1, 2...

---
 gemlog/gem_network.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 6de073a..90489f1 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -554,10 +554,10 @@ def summarize_gps(gps_dir_pattern, station_info = None, output_file = None, t1 =
         for SN in coords.SN:
             try:
                 w = np.where(station_info.SN == SN)[0][0]
-                network.append(station_info.network[w])
-                station.append(station_info.station[w])
-                location.append(station_info.location[w])
-                elevation.append(station_info.elevation[w])
+                network.append(station_info.network.iloc[w])
+                station.append(station_info.station.iloc[w])
+                location.append(station_info.location.iloc[w])
+                elevation.append(station_info.elevation.iloc[w])
             except:
                 network.append('')
                 station.append('')
-- 
2.43.0


From 4d2a6fc3ff48b9abc5e6b4604be6fe038bcc1db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 35/46] fix: xcorr_one_day took the upsampling ratio from the
 wrong option's default

---
 gemlog/xcorr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index b7b010f..f3a00d1 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -304,11 +304,11 @@ def xcorr_one_day(st, args = {}):
     fh = args.get('fh') if args.get('fh') is not None else 40
     win_length_sec = args.get('win_length_sec') if args.get('win_length_sec') is not None else 5
     overlap = args.get('overlap') if args.get('overlap') is not None else 0
-    upsample_ratio = args.get('upsample_ratio') if args.get('overlap') is not None else 1
+    upsample_ratio = args.get('upsample_ratio') if args.get('upsample_ratio') is not None else 1
     _validate_inputs(fl, fh, win_length_sec, overlap, upsample_ratio)
 
     if upsample_ratio != 1:
-        st = upsample_stream(st, args['upsample_ratio'])
+        st = upsample_stream(st, upsample_ratio)
         
     st.detrend('linear')
 
-- 
2.43.0


From 71f8b3161ddbf8a04130a77eca4ed9a6355e9296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 36/46] fix: lags that do not cancel around the sensor loop
 were reported as consistent

---
 gemlog/xcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index f3a00d1..90ffe8b 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -349,7 +349,7 @@ def xcorr_function(st, args):
         shift, value = xcorr_max(correlate(tr1.data, tr2.data, int(np.round(maxshift_seconds / dt))), abs_max = False)
         output_dict[f'lag_{pair_name}'] = shift * dt
         output_dict[f'r_{pair_name}'] = value
-        consistency += shift/len(st)
+        consistency += shift
         output_dict['mean_coef'] += value/len(st)
     ## consistency: allow up to one sample error per cross-correlation
     output_dict['consistency'] = np.abs(consistency) <= len(st)
-- 
2.43.0


From 9d666328aff85b65100c222290413d989b959036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 37/46] fix: calc_channel_stats always failed

---
 gemlog/gemlog_aux.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index e26a4e1..abe1aee 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -196,8 +196,7 @@ def calc_channel_stats(DB, t1, t2):
         else:
             q1 = np.quantile(np.array(DB.amp_HP)[w], 0.25)
             q3 = np.quantile(np.array(DB.amp_HP)[w], 0.75)
-            out = pd.concat([out,
-                             pd.DataFrame([[sta, np.sum(np.array(DB.goodData)[w])/numHour, np.sum(np.array(DB.anyData)[w])/numHour, q1, q3]], columns = ['station', 'goodData', 'anyData', 'q1', 'q3'])])
+            out.append(pd.DataFrame([[sta, np.sum(np.array(DB.goodData)[w])/numHour, np.sum(np.array(DB.anyData)[w])/numHour, q1, q3]], columns = ['station', 'goodData', 'anyData', 'q1', 'q3']))
     out = pd.concat(out)
     return(out)
 
-- 
2.43.0


From 7f2565c622230c4e50dea7a27285902b86dfa3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 38/46] fix: calc_channel_stats left out files that start or
 end exactly with the requested period

---
 gemlog/gemlog_aux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index abe1aee..32bb52d 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -190,7 +190,7 @@ def calc_channel_stats(DB, t1, t2):
     DB.anyData = (DB.amp_HP > 0) 
     out = []
     for sta in DB.station.unique():
-        w = np.where((DB.station == sta) & (DB.t1 > t1) & (DB.t2 < t2))[0]
+        w = np.where((DB.station == sta) & (DB.t1 >= t1) & (DB.t2 <= t2))[0]
         if(len(w) == 0):
             continue
         else:
-- 
2.43.0


From 9250d6bfb65433da6fc03b771dfaf75f18d6f0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 39/46] fix: the low-gain instrument response was the one of
 the high gain

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 90489f1..a58c38a 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -116,7 +116,7 @@ def get_gem_response(gain = 'high', sensor_file = '', logger_file = ''):
         if gain.lower() == 'high':
             logger_file = 'RESP.XX.GM002..HHZ.GEMINFRAV1.0.100'
         elif gain.lower() == 'low':
-            logger_file = 'RESP.XX.GM002..HHZ.GEMINFRAV1.0.100'
+            logger_file = 'RESP.XX.GM001..HHZ.GEMINFRAV1.1.100'
         else:
             raise ValueError(f'invalid gain: {gain}')
     response = _read_response(os.path.join(response_path, 'datalogger', logger_file))
-- 
2.43.0


From b5c16f441edad86bfe5d8e5c1125e733a1a4c2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 40/46] fix: gemconvert_single refused the long option names in
 its help message

---
 gemlog/gemconvert_single.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gemlog/gemconvert_single.py b/gemlog/gemconvert_single.py
index 009c01a..7a75ec2 100755
--- a/gemlog/gemconvert_single.py
+++ b/gemlog/gemconvert_single.py
@@ -12,7 +12,7 @@ except Exception as e:
     sys.exit(2)
 
 def print_call():
-    print('gemconvert_single -i <input_file> -o <outputdir> -g <gps_required>')
+    print('gemconvert_single -i <input_file> -o <output_file> [-f]')
     print('-i --input_file')
     print('-o --output_file: default ./<input_file>.mseed')
     print('-f --force-conversion: convert file even if it doesn\'t have enough GPS points for')
@@ -28,7 +28,7 @@ def main(argv = None):
     output_file = None
     force_conversion = False
     try:
-        opts, args = getopt.getopt(argv,"hfi:o:")
+        opts, args = getopt.getopt(argv,"hfi:o:",["help","force-conversion","input_file=","output_file="])
     except getopt.GetoptError:
         print_call()
         sys.exit(2)
@@ -42,7 +42,7 @@ def main(argv = None):
             input_file = arg
         elif opt in ("-o", "--output_file"):
             output_file = arg
-        elif opt in ("-f", "--force_conversion"):
+        elif opt in ("-f", "--force-conversion"):
             force_conversion = True
 
     print(f'gemlog version {gemlog.__version__}')
-- 
2.43.0


From b118e8422783cadaeacb5c1ce2abcab7535ccf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 41/46] fix: a block of files was rejected when its data start
 with two short gaps, or its first GPS fix is off at a gap

---
 gemlog/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 778f355..a771fa4 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1463,8 +1463,8 @@ def _find_breaks(L):
         dataBreaks = dataBreaks[dataBreaks != len(dmD)]
     #_breakpoint()
     for i in dataBreaks:
-        starts = np.append(starts, np.max(mD[(i-1):(i+2)]))
-        ends = np.append(ends, np.min(mD[(i-1):(i+2)]))
+        starts = np.append(starts, np.max(mD[max(i-1,0):(i+2)]))
+        ends = np.append(ends, np.min(mD[max(i-1,0):(i+2)]))
     tG = np.array(L['gps'].t).astype('float') # gps times
     mG = np.array(L['gps'].msPPS).astype('float') # gps millis
     dmG_dtG = np.diff(mG)/np.diff(tG) * 1.024 # correction for custom millis in gem firmware (1024 us/ms)
@@ -1481,8 +1481,8 @@ def _find_breaks(L):
         overlaps = (mG[i] <= starts) & (mG[i+1] >= ends)
         if(np.any(overlaps)):
             w = np.argwhere(overlaps)
-            starts[w] = max(np.append(starts[w], mG[(i-1):(i+2)].max()))
-            ends[w] = max(np.append(ends[w], mG[(i-1):(i+2)].min()))
+            starts[w] = max(np.append(starts[w], mG[max(i-1,0):(i+2)].max()))
+            ends[w] = max(np.append(ends[w], mG[max(i-1,0):(i+2)].min()))
         else:
             wmin = np.argwhere(tG > tG[i])
             ## If a file's very last gps fix triggered a break, an exception would be raised here.
-- 
2.43.0


From 50345c7011aaf3a6de63480fb1482b1b04f83cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 42/46] fix: a first file with an invalid format version
 stopped the conversion instead of being skipped and reported

---
 gemlog/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index a771fa4..f0ce23f 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -505,22 +505,25 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
     ## at this point, if we don't have any files, raise a missing file exception
     if len(fnList) == 0:
         raise MissingRawFiles(str(path) + ': ' + str(nums))
+    problems = []
     while True:
         if len(fnList) == 0: # at this point, if we have no files, they're all corrupt. 
             raise CorruptRawFile(str(path) + ': ' + str(nums))
         try:
             version = _read_format_version(fnList[0])
             config = _read_config(fnList[0])
+            if version not in _time_corrections.keys():
+                raise CorruptRawFile(fnList[0] + ': Invalid or missing data format')
         except: # if we can't read the config for the first file here, drop it and try the next one
+            problems.append(f'Corrupt raw file {fnList[0]}: invalid or missing data format')
             fnList = fnList[1:] # 
         else:
             break
     if version in ['0.85C', '0.9', '0.91', '1.10']:
         L = _read_several(fnList, require_gps = require_gps)# same function works for all
-    elif (version == '0.85') | (version == '0.8') :
+    else: # 0.85 or 0.8
         L = _read_several(fnList, version = version, require_gps = require_gps) # same function works for both
-    else:
-        raise Exception(fnList[0] + ': Invalid or missing data format')
+    L['problems'] = problems + L['problems']
 
     ## stop early if we don't have data to process
     if len(L['data']) == 0:
-- 
2.43.0


From 29245eefb7f1cc6403633bc63c406edc3eace46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 43/46] fix: gemconvert_single decoded files of formats 0.8 and
 0.85 as if they held pressure differences

---
 gemlog/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index f0ce23f..37d7618 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1547,7 +1547,11 @@ def _convert_one_file(input_filename, output_filename = None, require_gps = True
     try:
         if not os.path.exists(input_filename):
             raise MissingRawFiles(f'File "{input_filename}" not found')
-        L = _read_several([input_filename], require_gps = require_gps)
+        version = _read_format_version(input_filename)
+        if version in ['0.8', '0.85']:
+            L = _read_several([input_filename], version = version, require_gps = require_gps)
+        else:
+            L = _read_several([input_filename], require_gps = require_gps)
         piecewiseTimeFit = L['header'].iloc[0,:]
     
         L['metadata']['t'] = _apply_fit(L['metadata']['millis'], piecewiseTimeFit)
-- 
2.43.0


From 9467da46982c97dce19b3343b59ef0e730c4d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 44/46] fix: merge_files_day read files that its pattern
 excludes, and mixed loggers whose codes end alike

---
 gemlog/gem_network.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index a58c38a..ea75090 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -361,14 +361,17 @@ def merge_files_day(infile_path, infile_pattern = '*', outfile_dir = 'merge_file
     ## find unique year, month, day lists for all files
     cuts = [infile.split('/')[-1].split('.')[0].split('T')[0] + ',' + '.'.join(infile.split('/')[-1].split('.')[1:])
             for infile in infiles]
-    cuts = _unique(cuts)
-    days = [cut.split(',')[0] for cut in cuts]
-    suffixes = [cut.split(',')[1] for cut in cuts]
+    unique_cuts = _unique(cuts)
+    days = [cut.split(',')[0] for cut in unique_cuts]
+    suffixes = [cut.split(',')[1] for cut in unique_cuts]
     
-    ## for each item, read all the files and 
-    for day, suffix in zip(days, suffixes):
+    ## for each item, read all of its files (and no others: not all files ending in the suffix have its codes) and merge them
+    for unique_cut, day, suffix in zip(unique_cuts, days, suffixes):
         print(day + ' ' + suffix)
-        x = obspy.read(infile_path + '/' + day + '*' + suffix)
+        x = obspy.Stream()
+        for infile, cut in zip(infiles, cuts):
+            if cut == unique_cut:
+                x += obspy.read(infile)
         x.merge(fill_value = 'latest', method = 1)
         x.write(outfile_dir + '/' + day + 'T00_00_00.' + suffix)
     return
-- 
2.43.0


From 31eade74043989153c9ab2d04d5a7985d46f281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 45/46] fix: write_wav changed the data of the trace it was
 given

---
 gemlog/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 37d7618..6d2ba53 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -388,14 +388,15 @@ def write_wav(tr, filename = None, path = '.', time_format = '%Y-%m-%dT%H_%M_%S'
     ## having trouble with integer format, although it is allowed. force float
     ## format instead, which is probably more useful anyway. This needs to be
     ## centered about zero and scaled to fit in the -1 to 1 range.
-    tr.data = tr.data.astype(float) - np.mean(tr.data)
-    ref = np.abs(tr.data).max()
+    ## The scaled data are a copy: writing a trace must not change it.
+    data = tr.data.astype(float) - np.mean(tr.data)
+    ref = np.abs(data).max()
     if ref > 0:  ## prevent divide-by-zero
-        tr.data /= ref
+        data /= ref
     ## sample rate must be an int
     if int(tr.stats.sampling_rate) != tr.stats.sampling_rate:
         raise TypeError('sample rate must be an integer')
-    wavfile.write(path + '/' + filename, int(tr.stats.sampling_rate), tr.data)
+    wavfile.write(path + '/' + filename, int(tr.stats.sampling_rate), data)
     
 
 def _trunc_UTCDateTime(x, n=86400):
-- 
2.43.0


From 1cf6e592327b316149fda0e8727dcbcee982bf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 46/46] fix: noise in a band just beyond the range of the noise
 model was extrapolated

---
 gemlog/gemlog_aux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index 32bb52d..90959b8 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -315,7 +315,7 @@ def _noise_spectrum_helper(freq_in, power_in, freq_out, spectype, freq_min, freq
     spec_function = scipy.interpolate.CubicSpline(freq_in, power_in, extrapolate = False)
     power = spec_function(freq_out)
     if (freq_min is not None) and (freq_max is not None):
-        noise = scipy.integrate.quad(spec_function, freq_min, freq_max)[0] # 'quad' outputs are the estimated integral and error bar
+        noise = float(spec_function.integrate(freq_min, freq_max)) # exact; nan if the band is not covered by freq_in
     else:
         noise = np.nan
 
-- 
2.43.0


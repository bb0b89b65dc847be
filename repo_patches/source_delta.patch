From 77e8dd50df656659db90d9646a5a4677d44c1446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 01/23] fix: decode the fraction of a second in NMEA clock
 times correctly

The digits after the decimal point were read as an integer and always
multiplied by 1e4, so '.1' became 0.01 s and '.123' overflowed the
microsecond field and raised.
---
 shipgrav/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 4d16fab..6cdac58 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -166,9 +166,9 @@ def _clock_time(allnav, talker):
             post = post[1:]
         hour[i] = int(post[0][:2])   # hour
         mint[i] = int(post[0][2:4])  # min
-        sec0 = float(post[0][4:])  # sec.msec
-        msec[i] = int(int(str(sec0).split('.')[-1])*1e4)  # msec
-        sec[i] = int(str(sec0).split('.')[0])  # sec
+        whole, _, frac = post[0][4:].strip().partition('.')  # sec.msec
+        msec[i] = int((frac + '000000')[:6])  # fraction of a second, in microsec
+        sec[i] = int(whole)  # sec
 
     return hour, mint, sec, msec
 
-- 
2.43.0


From da65f2bc5b729880ae1eb98ba7936967d229e650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 02/23] fix: clean up date-line crossings without crashing or
 inventing positions

The cleanup wrote into a read-only array (pandas 3), missed crossings next
to a blank fix, wrapped tracks that only had a data gap, and overwrote the
first fix after a gap whenever the number of gaps was even.
---
 shipgrav/io.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 6cdac58..43c903f 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -139,7 +139,8 @@ def read_nav(ship, pathlist, sampling=1, talker=None, ship_function=None, decima
                                  dtype=datetime)
 
     # check if we have probable longitude jumps, try to fix them
-    ilocs = np.where(abs(np.diff(gps_nav['lon'])) > 1)[0]
+    # (skipping any blank positions, which would hide a jump)
+    ilocs = np.where(abs(np.diff(gps_nav['lon'].dropna())) > 1)[0]
     if len(ilocs) > 0:
         # try to get rid of +- jumps (NBP, often)
         gps_nav = _clean_180cross(gps_nav)
@@ -355,23 +356,24 @@ def _clean_180cross(gps_nav):
     lpos = gps_nav['lon'].values > 0
     lneg = gps_nav['lon'].values < 0
 
-    newlon = gps_nav['lon'].values
+    newlon = gps_nav['lon'].values.copy()  # .values may be a read-only view
 
-    if sum(lpos) > sum(lneg):
-        newlon[lneg] = 180 + newlon[lneg] % 180
-    else:
-        newlon[lpos] = -180 + newlon[lpos] % -180
+    # only a wrapped longitude jumps by more than 180; smaller jumps are gaps
+    if np.any(abs(np.diff(newlon[~np.isnan(newlon)])) > 180):
+        if sum(lpos) > sum(lneg):
+            newlon[lneg] = 180 + newlon[lneg] % 180
+        else:
+            newlon[lpos] = -180 + newlon[lpos] % -180
 
     # check if there are still some jumpy points (from between +/- reversals)
     ilocs = np.where(abs(np.diff(newlon)) > 1)[0]  # should not jump a degree
-    if len(ilocs) % 2 != 0:  # these are not paired, so one must be an end?
-        pass
-    else:  # pairs of indices for jump out and back
-        for i in ilocs[::2]:  # assume nice pairwise
+    for i, j in zip(ilocs[:-1], ilocs[1:]):
+        # a jump out and straight back is one bad point; anything else is a gap
+        if j == i+1 and abs(newlon[i+2] - newlon[i]) <= 1:
             # ad hoc duplication, not great
             newlon[i+1] = (newlon[i] + newlon[i+2])/2
 
-    gps_nav = gps_nav.replace({'lon': newlon})
+    gps_nav['lon'] = newlon
 
     return gps_nav
 
-- 
2.43.0


From 85a1877b43c9fec01310e6cd47d787ee94b7feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 03/23] fix: keep the last line and blank leading fields when
 reading a feed

read_other_stuff never looked at the last line of the file, and stripped
every leading comma so a blank first field shifted all columns left.
---
 shipgrav/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 43c903f..2859cd1 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -830,12 +830,15 @@ def read_other_stuff(yaml_file, data_file, tag):
         if tag in ln:
             lines.append(ln)
         ln = s.readline().decode('ascii').rstrip()  # next!
+    if tag in ln:  # the last line of the file
+        lines.append(ln)
 
     # split the lines at the tag, and then after the tag (fields named in yaml are post-tag)
     # split into pre-tag (might be '') and post-tag
     tagsplit = [e.split(dtag) for e in lines]
     # tagjoin = [','.join(tagsplit[i][0].strip(),tagsplit[i][1].strip(',')) for i in range(len(tagsplit))]
-    named_fields = [tagsplit[i][1].strip(',').split(
+    # (drop only the comma that ends the tag: more than one means blank leading fields)
+    named_fields = [tagsplit[i][1].removeprefix(',').rstrip(',').split(
         ',') for i in range(len(tagsplit))]
 
     # make a dataframe, using yaml and including any timestamp-like info that might be before the tag
-- 
2.43.0


From 39c2044da9bb302f8ebea5fa41dd058eda7c44b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 04/23] fix: put nav fixes on the right day when clocks
 straddle midnight

The logger's date was joined to the receiver's time of day as they were, so
a fix taken at 23:59:59 and logged at 00:00:00 came out 24 hours late (and
the reverse 24 hours early).
---
 shipgrav/io.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 2859cd1..714a3aa 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -1,7 +1,7 @@
 import mmap
 import os
 import re
-from datetime import datetime, timezone
+from datetime import datetime, timedelta, timezone
 
 import numpy as np
 import pandas as pd
@@ -174,6 +174,24 @@ def _clock_time(allnav, talker):
     return hour, mint, sec, msec
 
 
+def _nearest_day(stamp, logged):
+    """Move a timestamp to the day that puts it closest to the logger's clock.
+
+    Near midnight the logger's date and the receiver's time of day, which are
+    combined to make the timestamp, can be on either side of the day change.
+    """
+    clock = re.search(r'(\d{2}):(\d{2}):(\d{2})(?!:?\d)', logged)
+    if clock is None:  # no clock time was logged, so nothing to compare with
+        return stamp
+    hour, mint, sec = [int(e) for e in clock.groups()]
+    lag = (stamp.hour - hour)*3600 + (stamp.minute - mint)*60 + stamp.second - sec
+    if lag > 43200:
+        return stamp - timedelta(days=1)
+    elif lag < -43200:
+        return stamp + timedelta(days=1)
+    return stamp
+
+
 def _navdate_Atlantis(allnav, talker):
     """Extract datetime info from Atlantis nav files (at*.GPS).
     """
@@ -193,6 +211,7 @@ def _navdate_Atlantis(allnav, talker):
         day = int(date[2])  # day
         timest[i] = datetime(year, mon, day, hour[i], mint[i],
                              sec[i], msec[i], tzinfo=timezone.utc)
+        timest[i] = _nearest_day(timest[i], pre)
     return timest
 
 
@@ -218,6 +237,7 @@ def _navdate_NBP(allnav, talker):
                                        mint[i], sec[i], msec[i]),
                                       '%Y-%j-%H:%M:%S:%f')
         timest[i] = timest[i].replace(tzinfo=timezone.utc)
+        timest[i] = _nearest_day(timest[i], pre)
     return timest
 
 
@@ -240,6 +260,7 @@ def _navdate_Thompson(allnav, talker):
         day = int(date[1])
         timest[i] = datetime(year, mon, day, hour[i],
                              mint[i], sec[i], tzinfo=timezone.utc)
+        timest[i] = _nearest_day(timest[i], pre)
     return timest
 
 
@@ -272,6 +293,7 @@ def _navdate_Revelle(allnav, talker):
                 day = int(date[2])
                 timest[i] = datetime(
                     year, mon, day, hour[i], mint[i], sec[i], msec[i], tzinfo=timezone.utc)
+                timest[i] = _nearest_day(timest[i], before)
                 break  # skip the rest of the stepping backwards once date is found
     return timest
 
-- 
2.43.0


From f4f7c11857e6d86108fb91d2497c1f15e04f0af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 05/23] fix: refer topography to the base level in every term
 of grav1d_padded

The higher-order terms used raw depths while the continuation used the base
level, so the mean depth was counted twice and the anomaly changed when
topography and observation level were shifted together.
---
 shipgrav/grav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 7cc7ec9..6756d3d 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -672,7 +672,7 @@ def grav1d_padded(xtopo, topo, zlev, rho):
     npower = 5
     SUMtopo = copy(Ftopo)
     for ip in range(2, npower+1):  # summation per eq. 11.41 in Blakely
-        Ftopo = np.fft.fft(padtopo**ip)
+        Ftopo = np.fft.fft((padtopo - baselev)**ip)
         Ftopo = Ftopo*(kwn1**(ip-1))/factorial(ip)
 
         SUMtopo = SUMtopo + Ftopo
-- 
2.43.0


From 30f43fc63563ec6b61c174d2b6bce3303bff055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 06/23] fix: use the right wavenumbers for odd-sized profiles
 and grids

grav1d_padded misplaced the wavenumbers of odd-length profiles (asymmetric
anomaly) and grav2d_folding without folding raised for odd nx or ny.
---
 shipgrav/grav.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 6756d3d..3afd716 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -657,14 +657,9 @@ def grav1d_padded(xtopo, topo, zlev, rho):
     # padtopo = np.append(baselev*wing,np.append(topo,baselev*wing))
     # padtopo = np.append(topo,topo[::-1])
     nxt = len(padtopo)
-    mfx = (nxt/2.) + 1
 
-    k = (2*np.pi)/(nxt*dx)  # calculate wavenumbers
-    k2 = k**2
-    xi1 = np.arange(1, mfx+1)
-    xi = np.append(xi1, xi1[-2:0:-1])
-    xxk = (xi-1)*(xi-1)*k2
-    kwn1 = np.sqrt(xxk[:nxt])
+    # calculate wavenumbers (for an even or an odd number of points)
+    kwn1 = 2*np.pi*abs(np.fft.fftfreq(nxt, dx))
 
     Ftopo = np.fft.fft(padtopo)  # Fourier transform the topography
     Ftopo[0] = 0
@@ -753,10 +748,6 @@ def grav2d_folding(X, Y, Z, dx, dy, drho=0.6, dz=6000, ifold=True, npower=5):
     kx2 = kint1*kint1
     ky2 = kint2*kint2
 
-    # folding frequency:
-    mfx = int(nxt/2 + 1)
-    mfy = int(nyt/2 + 1)
-
     # the important part:
     # (1) compute wavenumbers
     # (2) transform topography with fft
@@ -765,13 +756,14 @@ def grav2d_folding(X, Y, Z, dx, dy, drho=0.6, dz=6000, ifold=True, npower=5):
     #     by constants
 
     # wavenumbers:
-    yj1 = np.arange(1, mfy+1)
-    yj = np.append(yj1, yj1[mfy-2:0:-1])
-    yyk = (yj-1)*(yj-1)*ky2
-
-    xi1 = np.arange(1, mfx+1)
-    xi = np.append(xi1, xi1[mfx-2:0:-1])
-    xxk = (xi-1)*(xi-1)*kx2
+    # (indices count up to the folding frequency and back, for even or odd sizes)
+    yj = np.arange(nyt)
+    yj = np.minimum(yj, nyt-yj)
+    yyk = yj*yj*ky2
+
+    xi = np.arange(nxt)
+    xi = np.minimum(xi, nxt-xi)
+    xxk = xi*xi*kx2
 
     kwn1 = np.zeros((nxt, nyt))
     for j in range(nyt):
-- 
2.43.0


From 486c4da0ec4fd3d0aa90147969fd5a02ce1e2e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 07/23] fix: keep the last segment when cross-coupling data
 have gaps

Segments were delimited by the gaps alone, so everything after the last gap
(and the last sample before each gap) was left out of the regression, and
data with one early gap raised.
---
 shipgrav/grav.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 3afd716..d9ff51b 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -371,9 +371,10 @@ def calc_cross_coupling_coefficients(faa_in, vcc_in, ve_in, al_in, ax_in, level_
         tdiff = np.diff(times)
         if np.any(tdiff > 5*samplerate):
             # 5 sec gap doesn't matter much I hope???
-            end_inds = np.where(tdiff > 5*samplerate)[0]
+            # each segment ends at a gap, except the last one
+            end_inds = np.append(np.where(tdiff > 5*samplerate)[0] + 1, end_inds)
 
-    end_inds = np.append(-1, end_inds)  # add starting point
+    end_inds = np.append(0, end_inds)  # add starting point
 
     faa_tf = np.array([])
     vcc_tf = np.array([])
@@ -383,12 +384,12 @@ def calc_cross_coupling_coefficients(faa_in, vcc_in, ve_in, al_in, ax_in, level_
     le_tf = np.array([])  # things to fit
 
     for i in range(1, len(end_inds)):  # loop continuous-time segments
-        faa = faa_in[end_inds[i-1]+1:end_inds[i]]
-        vcc = vcc_in[end_inds[i-1]+1:end_inds[i]]
-        ve = ve_in[end_inds[i-1]+1:end_inds[i]]
-        al = al_in[end_inds[i-1]+1:end_inds[i]]
-        ax = ax_in[end_inds[i-1]+1:end_inds[i]]
-        level = level_in[end_inds[i-1]+1:end_inds[i]]
+        faa = faa_in[end_inds[i-1]:end_inds[i]]
+        vcc = vcc_in[end_inds[i-1]:end_inds[i]]
+        ve = ve_in[end_inds[i-1]:end_inds[i]]
+        al = al_in[end_inds[i-1]:end_inds[i]]
+        ax = ax_in[end_inds[i-1]:end_inds[i]]
+        level = level_in[end_inds[i-1]:end_inds[i]]
         if len(faa) < 1000:
             continue  # no point for very short segments
         # double derivatives with taylor series
-- 
2.43.0


From 55e5dedb7701d16441ec0927037f006a76bb5b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 08/23] fix: line up the wavenumbers with the FFT in
 crustal_thickness_2D

They were off by one (index 1 was treated as the mean), so the filter was
not symmetric and the thickness came out complex and distorted.
---
 shipgrav/grav.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index d9ff51b..94358d0 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -1181,9 +1181,6 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
     kcut1 = 2*np.pi/wlarge
     kcut2 = 2*np.pi/wsmall
     dkcut = kcut2 - kcut1
-    mfx = nx/2 + 1
-    mfy = ny/2 + 1
-
     prod = 1./(nx*ny)  # dimension correction factor
 
     G = 6.673e-8  # cgs gravity
@@ -1197,16 +1194,12 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
 
     kwn1 = np.zeros((nx, ny))  # compute wavenumbers in 2D
     for j in range(ny):
-        yj = j
-        if j > mfy:
-            yj = mfy*2 - j
-        yyk = kint2**2 * (yj-1)**2
+        yj = min(j, ny-j)  # count up to the folding frequency and back
+        yyk = kint2**2 * yj**2
 
         for i in range(nx):
-            xi = i
-            if i > mfx:
-                xi = mfx*2 - i
-            xxk = kint1**2 * (xi-1)**2
+            xi = min(i, nx-i)
+            xxk = kint1**2 * xi**2
 
             kwn1[i, j] = np.sqrt(xxk + yyk)
 
-- 
2.43.0


From fe07e04c8f9360e308dbeb8d38435facaa6b927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 09/23] fix: return crustal thickness in the order of the input

The inverse transform is done with a forward FFT, which reverses the grid;
with back=False the reversed grid was returned.
---
 shipgrav/grav.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 94358d0..0a99e37 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -1229,7 +1229,9 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
     ur_arr_2 = ur_arr_2*prod/1e5
 
     if not back:
-        return ur_arr_2
+        # undo the reversal from inverting with a forward transform
+        ur_arr_2 = np.roll(ur_arr_2.reshape(nx, ny)[::-1, ::-1], 1, axis=(0, 1))
+        return ur_arr_2.reshape(-1, 1)
     elif back:  # reverse the transform and upward continute to check gravity recovery
         for j in range(ny):
             for i in range(nx):
-- 
2.43.0


From 8ffc6f774b737ede6807e58f3570433be9f1db5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 10/23] fix: write valid toml for ini values with '=', quotes
 or backslashes

Values were cut at a second '=', backslashes and embedded quotes made the
output unreadable, and indented comments or blank lines raised.
---
 shipgrav/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 46b5322..3073ac7 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -141,12 +141,12 @@ def clean_ini_to_toml(ini_file):
         if ln.startswith('$'):
             ln = re.sub(r'\$', '', ln)  # clean out $ for talkers
 
-        if ln.startswith('[') or ln.startswith('#') or ln == '':
+        if ln.strip().startswith('[') or ln.strip().startswith('#') or ln.strip() == '':
             fo.write(ln)
             fo.write('\n')
             continue
 
-        val = ln.split('=')[1]  # get value from key=value pair
+        val = ln.split('=', 1)[1]  # get value from key=value pair
         extra_comm = ''
         if '#' in val:
             val = val.split('#')[0]
@@ -164,6 +164,7 @@ def clean_ini_to_toml(ini_file):
         try:
             float(val)
         except:
+            val = val.replace('\\', '\\\\').replace('"', '\\"')  # escape for toml
             val = "\"" + val + "\""
             ln = '= '.join((ln.split('=')[0], val))
             if extra_comm != '':
-- 
2.43.0


From 0217d0bbc47604a964d9f15bc7319ea28794147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 11/23] fix: keep ini strings intact and numbers readable when
 converting to toml

TRUE, FALSE and // were replaced inside strings as well, and numbers such
as .5, 5. or 007 were passed through although toml does not allow them.
---
 shipgrav/utils.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 3073ac7..53f77da 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -121,15 +121,15 @@ def clean_ini_to_toml(ini_file):
     with open(ini_file, 'r') as file:
         text = file.read()  # just read the whole thing
 
-    # fix comments (// to #)
-    text = re.sub('//', '#', text)
+    # fix comments (// to #), leaving anything in quotes alone
+    text = re.sub(r'("[^"\n]*")|//', lambda m: m.group(1) or '#', text)
 
     # clean out tabs
     text = re.sub('\t', '  ', text)
 
-    # fix TRUE and FALSE
-    text = re.sub('TRUE', 'true', text)
-    text = re.sub('FALSE', 'false', text)
+    # fix TRUE and FALSE (only where they are the value)
+    text = re.sub(r'(= *)TRUE(?= *(#|$))', r'\1true', text, flags=re.M)
+    text = re.sub(r'(= *)FALSE(?= *(#|$))', r'\1false', text, flags=re.M)
 
     text = re.sub('$', '', text)
 
@@ -162,8 +162,11 @@ def clean_ini_to_toml(ini_file):
             fo.write('\n')
             continue
         try:
-            float(val)
-        except:
+            num = float(val)
+            if not re.fullmatch(r'[+-]?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?', val):
+                # spelled in a way that toml does not allow (.5, 5., 007)
+                ln = '= '.join((ln.split('=')[0], repr(num)))
+        except ValueError:
             val = val.replace('\\', '\\\\').replace('"', '\\"')  # escape for toml
             val = "\"" + val + "\""
             ln = '= '.join((ln.split('=')[0], val))
-- 
2.43.0


From ec1d0ea5a85c779cf4fb4e84213e3af9d7aa9061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 12/23] fix: take the hour of tide timestamps in UTC

The hour of day was read in whatever time zone the stamp carried, so the
same instant gave different tides in different zones.
---
 shipgrav/grav.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 0a99e37..ab5d65f 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -33,6 +33,7 @@ def _convert_datetime_tidetime(timestamp):
     dt = timestamp - origin_time
     days = dt.days + dt.seconds/3600./24.
     julian_century = days/36525
+    timestamp = timestamp.astimezone(timezone.utc)  # hours are since midnight UTC
     julian_hour = (timestamp.hour + timestamp.minute /
                    60. + timestamp.second/3600.)
 
-- 
2.43.0


From a78123b2a9854867ceec3932bf1760664686d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 13/23] fix: snap the cursor to the closest point

It went to the next point to the right, however far away that was.
---
 shipgrav/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 53f77da..93fea05 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -248,7 +248,7 @@ class _SnappingCursor:
         else:
             self.set_cross_hair_visible(True)
             x, y = event.xdata, event.ydata
-            index = min(np.searchsorted(self.x, x), len(self.x) - 1)
+            index = np.argmin(abs(np.asarray(self.x) - x))
             if index == self._last_index:
                 return  # still on the same data point. Nothing to do.
             self._last_index = index
-- 
2.43.0


From f74efe4d12be2a2ca242398c36f5c824092081ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 14/23] fix: recognise any unsynchronised clock count in DGS
 serial files

Only counts starting with the digit 1 were recognised; any other count was
parsed as a date and reading the file raised.
---
 shipgrav/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 714a3aa..94e1440 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -739,7 +739,8 @@ def _dgs_raw_general(path):
                       usecols=(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18))
 
     conv_times = True  # assume column 18 is actually timestamps
-    if str(dat.iloc[0].timestamp).startswith('1'):  # 1 Hz, 1 second
+    stamp0 = str(dat.iloc[0].timestamp)
+    if stamp0.startswith('1') or len(stamp0) < 14:  # 1 Hz, 1 second (a counter, not yyyymmddHHMMSS)
         conv_times = False  # clock not synced, so don't try to convert to stamp
 
     if conv_times:  # probably UTC stamps
-- 
2.43.0


From dc179f869f235103ab4dfb4bbd0ecae7d601adb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 15/23] fix: match whole tags when reading a feed

---
 shipgrav/io.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 94e1440..51b6227 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -830,6 +830,8 @@ def read_other_stuff(yaml_file, data_file, tag):
     if tag.startswith('$'):
         tag = tag[1:]
     dtag = '$' + tag
+    # match whole tags only, since another feed's tag can contain this one
+    whole_tag = re.escape(dtag) + r'(?!\w)'
 
     # read yaml, check that tag specs are in this file
     with open(yaml_file, 'r') as f:
@@ -839,10 +841,11 @@ def read_other_stuff(yaml_file, data_file, tag):
     ), '%s feed specs not present in yaml file %s' % (tag, yaml_file)
 
     # check to make sure tag appears in the data file
+    assert os.path.getsize(data_file) > 0, 'data file %s is empty' % data_file
     with open(data_file, 'rb') as file:
         s = mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_READ)
-        result = s.find(bytes(tag, 'ascii'))
-    assert result != -1, '%s not in data file %s' % (tag, data_file)
+        result = re.search(bytes(whole_tag, 'ascii'), s)
+    assert result is not None, '%s not in data file %s' % (tag, data_file)
 
     # checks done, read in all the lines for this feed
     lines = []
@@ -850,15 +853,15 @@ def read_other_stuff(yaml_file, data_file, tag):
     # get line, bytes->string, strip \r\n from end
     ln = s.readline().decode('ascii').rstrip()
     while s.tell() < s.size():  # when s.tell() == s.size(), we got to the end of the file
-        if tag in ln:
+        if re.search(whole_tag, ln):
             lines.append(ln)
         ln = s.readline().decode('ascii').rstrip()  # next!
-    if tag in ln:  # the last line of the file
+    if re.search(whole_tag, ln):  # the last line of the file
         lines.append(ln)
 
     # split the lines at the tag, and then after the tag (fields named in yaml are post-tag)
     # split into pre-tag (might be '') and post-tag
-    tagsplit = [e.split(dtag) for e in lines]
+    tagsplit = [re.split(whole_tag, e) for e in lines]
     # tagjoin = [','.join(tagsplit[i][0].strip(),tagsplit[i][1].strip(',')) for i in range(len(tagsplit))]
     # (drop only the comma that ends the tag: more than one means blank leading fields)
     named_fields = [tagsplit[i][1].removeprefix(',').rstrip(',').split(
-- 
2.43.0


From d8cf2933da42a2d4106dadffbd8a76465b1403bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 16/23] fix: keep blank fields at the end of a feed's sentences

---
 shipgrav/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 51b6227..bbabfa5 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -864,13 +864,16 @@ def read_other_stuff(yaml_file, data_file, tag):
     tagsplit = [re.split(whole_tag, e) for e in lines]
     # tagjoin = [','.join(tagsplit[i][0].strip(),tagsplit[i][1].strip(',')) for i in range(len(tagsplit))]
     # (drop only the comma that ends the tag: more than one means blank leading fields)
-    named_fields = [tagsplit[i][1].removeprefix(',').rstrip(',').split(
+    colnames = re.sub('{|}', '', ym['format'][tag]).split(',')[1:]
+    named_fields = [tagsplit[i][1].removeprefix(',').split(
         ',') for i in range(len(tagsplit))]
+    for fields in named_fields:  # drop trailing commas, but not the last fields of the feed if blank
+        while len(fields) > len(colnames) and fields[-1] == '':
+            fields.pop()
 
     # make a dataframe, using yaml and including any timestamp-like info that might be before the tag
     # Note that the format of the lines we're working with is usually some variation on:
     # [date/timestamp, maybe], $TAG, comma, separated, fields, listed, in, yaml
-    colnames = re.sub('{|}', '', ym['format'][tag]).split(',')[1:]
     df = pd.DataFrame(named_fields, columns=colnames)
     df['mystery'] = [tagsplit[i][0]
                      for i in range(len(tagsplit))]  # any pre-tag stuff
-- 
2.43.0


From 35974d3450e39a8c5f77700ec273b47aa7f3258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 17/23] fix: keep the last microsecond of logger stamps in Ride
 and Sikuliaq navigation

---
 shipgrav/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index bbabfa5..5fa0184 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -323,7 +323,7 @@ def _navdate_Ride(allnav, talker):
             hour = int(date[3])
             mint = int(date[4])
             sec = int(date[5])
-            msec = int(float('.'+date[6])*1e6)
+            msec = int((date[6] + '000000')[:6])
             timest[i] = datetime(year, mon, day, hour, mint,
                                  sec, msec, tzinfo=timezone.utc)
     return timest
-- 
2.43.0


From 29f8d7ef1a8f1badd9e232d5eaeb6403d89270d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 18/23] fix: keep column types when one of the gravimeter files
 has no data

---
 shipgrav/io.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 5fa0184..7213104 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -399,6 +399,14 @@ def _clean_180cross(gps_nav):
 
     return gps_nav
 
+
+def _drop_empty(dats):
+    """Leave out frames of files without data, unless there are no others.
+
+    Their columns have no types and would turn those of all the data into objects.
+    """
+    return [dat for dat in dats if len(dat) > 0] or dats
+
 ########################################################################
 # BGM3 i/o (RGS and serial)
 ########################################################################
@@ -434,6 +442,7 @@ def read_bgm_rgs(fp, ship, progressbar=True):
         dat['date_time'] = pd.to_datetime(dat.pop('date')+' '+dat.pop('time'),utc=True)
         dats.append(dat)
 
+    dats = _drop_empty(dats)
     return pd.concat(dats, ignore_index=True)
 
 
@@ -495,6 +504,7 @@ def read_bgm_raw(fp, ship, scale=None, ship_function=None, progressbar=True):
                 return -999
         dat['rgrav'] = scale*dat['counts']
         dats.append(dat)
+    dats = _drop_empty(dats)
     return pd.concat(dats, ignore_index=True)
 
 
@@ -604,6 +614,7 @@ def read_dgs_laptop(fp, ship, ship_function=None, progressbar=True):
 
         dats.append(dat)  # append the DataFrame for this filepath
 
+    dats = _drop_empty(dats)
     return pd.concat(dats, ignore_index=True)
 
 
@@ -726,6 +737,7 @@ def read_dgs_raw(fp, ship, scale_ccp=True, progressbar=True):
             dat['vcc'] = dat['vcc'].mul(0.00001)  # -0.000029)
         dats.append(dat)
 
+    dats = _drop_empty(dats)
     return pd.concat(dats, ignore_index=True)
 
 
-- 
2.43.0


From 4b5984157bf6c17bfe8521ca26f37f96cc7f837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:54 +0000
Subject: [PATCH 19/23] fix: central differences and the Eotvos correction of
 DataFrame columns are taken by position, not by index

---
 shipgrav/grav.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index ab5d65f..3bf0bea 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -230,8 +230,10 @@ def eotvos_full(lon, lat, ht, samp, a=6378137.0, b=6356752.3142):
     mps2mgal = 100000     # m/s/s to mgal
     ecc = (a-b)/a
 
-    latr = np.deg2rad(lat)
-    lonr = np.deg2rad(lon)
+    # by position, whatever the index (if these are columns of a DataFrame)
+    latr = np.deg2rad(np.asarray(lat))
+    lonr = np.deg2rad(np.asarray(lon))
+    ht = np.asarray(ht)
 
     # get time derivatives of position
     dlat = center_diff(latr, 1, samp)
@@ -468,6 +470,7 @@ def center_diff(y, n, samp):
 
     :return: 1st or 2nd order derivative of **y**
     """
+    y = np.asarray(y)  # differences are by position, not by index
     if n == 1:
         return (y[2:] - y[:-2])*(samp/2)
     elif n == 2:
-- 
2.43.0


From adc1032cda7466ebe572f934af701d3866d05ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:54 +0000
Subject: [PATCH 20/23] fix: gaussian_filter takes the samples of a Series in
 order, whatever its index

---
 shipgrav/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 93fea05..b4ae010 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -21,6 +21,8 @@ def gaussian_filter(x, fl):
     :return: **xfilt** (*ndarray*) - filtered time series x
     """
 
+    x = np.asarray(x)  # samples in order, whatever the index
+
     assert len(x) > fl, 'raw data is shorter than gaussian filter'
 
     coeffs = _gaussian_coeffs(fl)
-- 
2.43.0


From f9b8b58c6bed9d230f67f004999bbacc61327b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 21/23] fix: grav1d_padded accepts DataFrame columns

---
 shipgrav/grav.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 3bf0bea..e39c3f1 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -647,6 +647,10 @@ def grav1d_padded(xtopo, topo, zlev, rho):
 
     :return: **anom** (*ndarray*) - gravity anomaly in mgal
     """
+    # by position, whatever the index (if these are columns of a DataFrame)
+    xtopo = np.asarray(xtopo)
+    topo = np.asarray(topo)
+
     G = 6.673*1e-8
     grav = 2*np.pi*G*rho
     baselev = np.mean(topo)  # mean topography for baseline
-- 
2.43.0


From 4c06fe6046df21eded22978880451ac18f61fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 22/23] fix: therm_Z_plate takes the isotherms of a Series in
 order, whatever its index

---
 shipgrav/grav.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index e39c3f1..ae82e93 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -1116,6 +1116,7 @@ def therm_Z_plate(x, T, u=0.01, zL0=100.e3, Tm=1350, time=False,
     :returns: **ziso** (*ndarray*) - depths to isotherms, z(T,x)
     """
 
+    T = np.asarray(T)
     z = np.arange(minz, maxz, zsp)
 
     Tp, _ = therm_plate(x, z, u=u, zL0=zL0, Tm=Tm, time=time, rhom=rhom, rhow=rhow,
-- 
2.43.0


From ba829d296239925eca8bf0d54301ea38becaac52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 23/23] fix: crustal_thickness_2D accepts DataFrame columns

---
 shipgrav/grav.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index ae82e93..65e4d9d 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -1172,6 +1172,7 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
     """
     assert wlarge > wsmall, 'wlarge must be larger than wsmall'
 
+    ur = np.asarray(ur)
     ave = np.mean(ur)
 
     # shift to a new reference and convert milligal to gal
-- 
2.43.0


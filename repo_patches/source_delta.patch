From 0987c79cc02e8c3e076ba35563bc922450f063c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 01/54] fix: coordinates of sliced cell centered fields
 (negative limits, backward and strided slices, explicit cell centers, empty
 selections)

---
 viscid/coordinate.py | 126 +++++++++++++++++++++++++++----------------
 1 file changed, 79 insertions(+), 47 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 718297f..60b2f6d 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -614,6 +614,46 @@ class StructuredCrds(Coordinates):
         new_clist = [(ax, nc) for ax, nc in zip(axes, crds_nc)]
         return type(self)(new_clist)
 
+    @staticmethod
+    def _cc_subset(crd_nc, crd_cc, kept, strided=False, reverse=False):
+        """Coordinates of a subset of cells
+
+        Args:
+            crd_nc (ndarray): node centered coordinates
+            crd_cc (ndarray): cell centered coordinates
+            kept (ndarray): (non-negative) indices of the cells to keep
+            strided (bool): the outermost nodes are the outermost nodes of
+                the kept cells, if False, they are extrapolated
+            reverse (bool): order of the nodes if there is only one cell
+
+        Returns:
+            [nc] if the cells are contiguous, i.e., nc are the nodes of
+            those cells, or [nc, cc] if there are gaps between the cells,
+            in which case the nodes are put halfway between the cells
+        """
+        if len(kept) == 0:
+            return [crd_nc[:0]]
+
+        step = np.diff(kept)
+        if len(crd_nc) == 1 and len(kept) == 1:
+            # the lone cell center sits on the lone node
+            return [crd_nc[kept]]
+        elif np.all(step == 1) and not (reverse and len(kept) == 1):
+            return [crd_nc[kept[0]:kept[-1] + 2]]
+        elif np.all(step == -1):
+            return [crd_nc[kept[-1]:kept[0] + 2][::-1]]
+
+        sel_cc = crd_cc[kept]
+        dx = sel_cc[1:] - sel_cc[:-1]
+        if strided:
+            first = kept[0] if step[0] > 0 else kept[0] + 1
+            last = kept[-1] + 1 if step[-1] > 0 else kept[-1]
+            ends = [crd_nc[first:first + 1], crd_nc[last:last + 1]]
+        else:
+            ends = [sel_cc[:1] - 0.5 * dx[:1], sel_cc[-1:] + 0.5 * dx[-1:]]
+        sel_nc = np.concatenate([ends[0], sel_cc[:-1] + 0.5 * dx, ends[1]])
+        return [sel_nc, sel_cc]
+
     def _make_slice(self, selection, cc=False):
         """Turns a selection into finalized slices and coordinates
 
@@ -678,47 +718,26 @@ class StructuredCrds(Coordinates):
                            for s in (slc.start, slc.stop, slc.step)):
                     raise TypeError("bad sss:", slc)
 
-                sliced_clist_item = None
-
-                # if using step on a cell centered field, we need to figure
-                # stuff out, since the data && crd slices can't be the same,
-                # and it's not as simple as just adding 1 b/c of the stride
-                if cc and slc.step not in [None, 1, -1]:
-                    crd_cc = crd_arrs_cc[i][slc]
-                    crd_nc = 0.5 * (crd_cc[1:] + crd_cc[:-1])
-
-                    allslc = slice(slc.start, slc.stop,
-                                   slc.step // np.abs(slc.step))
-                    allnc = crd_arrs_nc[i][allslc]
-                    crd_nc = np.concatenate([[allnc[0]], crd_nc, [allnc[-1]]])
-
-                    sliced_clist_item = [axis, crd_nc, crd_cc]
-
-                elif cc and slc.stop is not None:
-                    if slc.stop >= 0:
-                        if slc.step is None or slc.step > 0:
-                            newstop = slc.stop + 1
-                        else:
-                            newstop = slc.stop - 1
-                    else:  # slc.stop < 0
-                        # this will slice crds nc, so if we're going backward,
-                        # the extra crd will be included
-                        # print("am i used?", slc.step)
-                        newstop = slc.stop
-                    slc = slice(slc.start, newstop, slc.step)
-
-                if sliced_clist_item is None:
-                    cval = crd_arrs_nc[i][slc]
-                    sliced_clist_item = [axis, cval]
-
-                sliced_clist.append(sliced_clist_item)
+                if cc:
+                    kept = np.arange(len(crd_arrs_cc[i]))[slc]
+                    reverse = slc.step is not None and slc.step < 0
+                    item = [axis] + self._cc_subset(
+                        crd_arrs_nc[i], crd_arrs_cc[i], kept, strided=True,
+                        reverse=reverse)
+                    if len(item) == 2 and axis in self._src_crds_cc:
+                        item.append(crd_arrs_cc[i][kept])
+                    sliced_clist.append(item)
+                else:
+                    sliced_clist.append([axis, crd_arrs_nc[i][slc]])
 
             elif isinstance(slc, np.ndarray):
                 if cc:
-                    cval_cc = crd_arrs_cc[i][slc]
-                    cval_nc = (cval_cc[1:] + cval_cc[:-1]) / 2
-                    cval_nc = extend_arr(cval_nc)
-                    sliced_clist.append([axis, cval_nc, cval_cc])
+                    kept = np.arange(len(crd_arrs_cc[i]))[slc]
+                    item = [axis] + self._cc_subset(
+                        crd_arrs_nc[i], crd_arrs_cc[i], kept)
+                    if len(item) == 2 and axis in self._src_crds_cc:
+                        item.append(crd_arrs_cc[i][kept])
+                    sliced_clist.append(item)
                 else:
                     sliced_clist.append([axis, crd_arrs_nc[i][slc]])
 
@@ -742,6 +761,10 @@ class StructuredCrds(Coordinates):
         any_non_uniform = False
         for i, clist_i in enumerate(sliced_clist):
             # int crds (including times/dates) are never store at uniform crds
+            if len(clist_i[1]) == 0:
+                any_non_uniform = True
+                break
+
             if isinstance(clist_i[1][0], (int, np.integer, np.datetime64)):
                 any_non_uniform = True
                 break
@@ -754,6 +777,13 @@ class StructuredCrds(Coordinates):
                     any_non_uniform = True
                     break
 
+                # uniform crds can't have cells that are not between nodes
+                if len(clist_i) > 2:
+                    off = clist_i[2] - (clist_i[1][:-1] + 0.5 * diff_nc)
+                    if np.any(np.abs(off) > 1e-8 * np.abs(diff_nc[0])):
+                        any_non_uniform = True
+                        break
+
         if uniform_type == 'uniform' and any_non_uniform:
             uniform_type = 'nonuniform'
 
@@ -777,7 +807,8 @@ class StructuredCrds(Coordinates):
 
     def make_slice_reduce(self, selection, cc=False):
         """make slice, and reduce dims that were not explicitly sliced"""
-        slices, crdlst, reduced, crds_type = self.make_slice(selection, cc=cc)
+        slices, crdlst, reduced, crds_type, full_ax_names = \
+            self._make_slice(selection, cc=cc)
         # augment slices / reduced
 
         reduced_axes = [t[0] for t in reduced]
@@ -786,11 +817,11 @@ class StructuredCrds(Coordinates):
             reduce_axis = False
             if axis not in reduced_axes:
                 if cc and self.shape_cc[i] == 1:
-                    slices[i] = 0
+                    slices[full_ax_names.index(axis)] = 0
                     reduced.insert(i, [axis, self.get_cc(axis)[0]])
                     reduce_axis = True
                 elif not cc and self.shape_nc[i] == 1:
-                    slices[i] = 0
+                    slices[full_ax_names.index(axis)] = 0
                     reduced.insert(i, [axis, self.get_nc(axis)[0]])
                     reduce_axis = True
                 # go find which element of crdlst to take out since there
@@ -825,12 +856,11 @@ class StructuredCrds(Coordinates):
             crd_nc = self.get_nc(axis)
 
             if cc:
-                if loc_ind == -1:
-                    crd = crd_nc[-2:]
-                    slc = slice(-1, None)
-                elif loc_ind == -2:
-                    crd = crd_nc[-2:]
-                    slc = slice(-2, -1)
+                if loc_ind < 0:
+                    loc_ind += len(self.get_cc(axis))
+                if len(crd_nc) == 1:
+                    crd = crd_nc
+                    slc = slice(loc_ind, loc_ind + 1)
                 else:
                     crd = crd_nc[loc_ind:loc_ind + 2]
                     slc = slice(loc_ind, loc_ind + 1)
@@ -844,6 +874,8 @@ class StructuredCrds(Coordinates):
 
             slices[new_axis_ind] = slc
             crdlst.insert(new_axis_ind, [axis, crd])
+            if cc and axis in self._src_crds_cc:
+                crdlst[new_axis_ind].append(self.get_cc(axis)[slc])
 
         # should be no more reduced crds
         reduced = []
-- 
2.43.0


From b8902e4230ad547f8d8e218f3e077bf0065a42f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 02/54] fix: slice-by-array next to an integer or another array
 selects each axis on its own

---
 viscid/field.py     |  7 +++----
 viscid/sliceutil.py | 41 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 79b3089..0bf8452 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1251,7 +1251,7 @@ class Field(tree.Leaf):
             except TypeError:
                 nr_comp = None
             # use xyz slices cause self.data is guarenteed to be xyz
-            slced_dat = self.data[tuple(slices)]
+            slced_dat = sliceutil.orthogonal_getitem(self.data, slices)
 
         if len(reduced) == len(slices) or getattr(slced_dat, 'size', 0) == 1:
             # if we sliced the hell out of the array, just
@@ -1361,12 +1361,11 @@ class Field(tree.Leaf):
         sel_list, comp_slc = self._prepare_slice(selection)
         slices, _ = self._src_crds.make_slice(tuple(sel_list), cc=cc)[:2]
         try:
-            nr_comp = self.nr_comp
-            nr_comp += slices[:nr_comp].count(np.newaxis)
+            nr_comp = self.nr_comp if self.nr_comp == 0 else len(slices)
             slices.insert(nr_comp, comp_slc)
         except TypeError:
             pass
-        self.data[tuple(slices)] = value
+        sliceutil.orthogonal_setitem(self.data, slices, value)
         return None
 
     @classmethod
diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 806637a..1873b7a 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -988,6 +988,47 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
 
 #######################################################################
 
+def orthogonal_getitem(arr, slices):
+    """Like arr[tuple(slices)], but every axis is sliced independently
+
+    Numpy's advanced indexing selects individual points (and may move
+    axes around) if a slice has an array as well as another array or
+    integer. That's not useful on a grid.
+    """
+    basic, advanced = _split_orthogonal(arr, slices)
+    arr = arr[basic]
+    for axis, inds in advanced:
+        arr = arr[(slice(None), ) * axis + (inds, )]
+    return arr
+
+def orthogonal_setitem(arr, slices, value):
+    """The assignment that goes with :py:func:`orthogonal_getitem`"""
+    basic, advanced = _split_orthogonal(arr, slices)
+    if len(advanced) > 1:
+        view = arr[basic]
+        inds = [np.arange(n) for n in view.shape]
+        for axis, axis_inds in advanced:
+            inds[axis] = inds[axis][axis_inds]
+        view[np.ix_(*inds)] = value
+    elif advanced:
+        axis, inds = advanced[0]
+        arr[basic][(slice(None), ) * axis + (inds, )] = value
+    else:
+        arr[basic] = value
+
+def _split_orthogonal(arr, slices):
+    basic = []
+    advanced = []
+    axis = 0
+    for slc in slices:
+        if isinstance(slc, (list, np.ndarray)):
+            advanced.append((axis, np.asarray(slc)))
+            slc = slice(None)
+        basic.append(slc)
+        if not hasattr(slc, "__index__"):
+            axis += 1
+    return tuple(basic), advanced
+
 def all_slices_none(slices):
     '''true iff all slices have no effect'''
     return all(not isinstance(s, (list, np.ndarray))
-- 
2.43.0


From 6c37986ae2f524be7ce02b7c50ef6a7435273c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 03/54] fix: keep the layout of vector fields whose number of
 components equals a spatial dimension

---
 viscid/field.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 0bf8452..1dde4d0 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -189,6 +189,8 @@ def full(crds, fill_value, dtype="f8", name="NoName", center="cell",
         else:
             raise RuntimeError("Please update Numpy; your version has neither "
                                "`numpy.full` nor `numpy.filled`")
+    if fldtype == "vector":
+        kwargs.setdefault("_src_layout", layout.lower())
     return wrap_field(dat, crds, name=name, fldtype=fldtype, center=center,
                       **kwargs)
 
@@ -256,6 +258,8 @@ def full_like(fld, fill_value, name="NoName", **kwargs):
                                "`numpy.full` nor `numpy.filled`")
     c = kwargs.pop("center", fld.center)
     t = kwargs.pop("time", fld.time)
+    if fld.nr_comps:
+        kwargs.setdefault("_src_layout", fld.layout)
     return wrap_field(dat, fld.crds, name=name, fldtype=fld.fldtype, center=c,
                       time=t, parents=[fld], **kwargs)
 
@@ -397,7 +401,7 @@ def rewrap_field(fld):
     # zyx_native is false b/c we're using fld.data
     ret = type(fld)(fld.name, fld.crds, fld.data, center=fld.center,
                     forget_source=True, _copy=True, zyx_native=False,
-                    parents=[fld])
+                    parents=[fld], _src_layout=fld.layout)
     return ret
 
 
@@ -1038,6 +1042,13 @@ class Field(tree.Leaf):
         if dat_shape == sshape:
             return LAYOUT_SCALAR
 
+        # if the number of components is the same as some spatial dimension,
+        # the shape might not tell interlaced from flat
+        if dat_shape[1:] == sshape and dat_shape[:-1] == sshape:
+            src_layout = self.deep_meta.get("src_layout", None)
+            if src_layout in (LAYOUT_FLAT, LAYOUT_INTERLACED):
+                return src_layout
+
         # if the crds shape has more values than the dat.shape
         # then try trimming the directions that have 1 element
         # this can happen when crds are 3d, but field is only 2d
@@ -1054,7 +1065,7 @@ class Field(tree.Leaf):
         # This 2nd part happens when calling atleast_3d() on
         # a field that isn't already in memory
         dat_shape2 = [si for si in dat_shape if si > 1]
-        sshape2 = [si for si in dat_shape if si > 1]
+        sshape2 = [si for si in sshape if si > 1]
 
         if dat_shape == sshape:
             layout = LAYOUT_SCALAR
@@ -1277,7 +1288,10 @@ class Field(tree.Leaf):
         return ret
 
     def forget_source(self):
-        self._src_data = self.data
+        src_data = self.data
+        if self.nr_comps:
+            self.deep_meta["src_layout"] = self.layout
+        self._src_data = src_data
         self._cached_xyz_src_view = self.data
 
     def slice(self, selection):
@@ -1878,6 +1892,11 @@ class Field(tree.Leaf):
         else:
             fldtype = field_type(fldtype)
 
+        # the layout of arr, in case it's ambiguous; operations on vectors
+        # don't move the components around
+        if self.nr_comps and "src_layout" not in context:
+            context["src_layout"] = self.layout
+
         # Transform functions are intentionally omitted. The idea being that
         # the transform was already applied when creating arr
         # same idea with zyx_native... whatever created arr should have done
@@ -2181,7 +2200,11 @@ class Field(tree.Leaf):
         t_data = self.data.transpose(axes)
 
         context = dict(crds=t_crds)
-        # i think the layout should be taken care of automagically
+        # i think the layout should be taken care of automagically, unless
+        # it can't be told from the shape
+        if self.nr_comps:
+            context["src_layout"] = (LAYOUT_FLAT if axes[0] == self.nr_comp
+                                     else LAYOUT_INTERLACED)
         return self.wrap(t_data, context=context)
 
     def transpose_crds(self, *axes):
-- 
2.43.0


From e105da66ecc8db885eaf32e65172ed612de6b58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 04/54] fix: interpolated_slice no longer changes the source's
 coordinates

The coordinate lists were edited in place, and the length of the axes list was
passed as the time epoch.
---
 viscid/coordinate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 60b2f6d..fb5a69c 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -932,7 +932,10 @@ class StructuredCrds(Coordinates):
         full_sel_list, full_ax_names, full_newdim_flags = full_sel_info
         std_sel_list = sliceutil.standardize_sel_list(full_sel_list)
 
-        limits = sliceutil.sel_list2values(None, full_sel_list, len(crdlst))
+        limits = sliceutil.sel_list2values(None, full_sel_list)
+
+        # don't change the crds of self
+        crdlst = [[crd[0]] + [np.array(arr) for arr in crd[1:]] for crd in crdlst]
 
         # for slices that were specified using a float, set that crd
         # to the desired float instead of the nearest crd as does slice_keep
-- 
2.43.0


From 645e1112de3579b33db866a614bd89e49dda013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 05/54] fix: .loc on vector fields without a component
 selection

A full slice was inserted in front of the last item of the selection (or at the
front for component-last fields), so the items were applied to the wrong axes.
---
 viscid/field.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 1dde4d0..7dec60a 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -460,9 +460,6 @@ class _FldSlcProxy(object):
             else:
                 sel.append(self._floatify(it))
 
-        if self.parent.nr_comps and len(sel) >= self.parent.nr_comp:
-            sel.insert(self.parent.nr_comp, slice(None))
-
         return tuple(sel)
 
     def __getitem__(self, item):
-- 
2.43.0


From 51ef0cc45235a346ad9b78a1a8a728f0ddd5b033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 06/54] fix: interpolated_slice down to a single point returns
 the value

---
 viscid/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/field.py b/viscid/field.py
index 7dec60a..2050795 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1358,7 +1358,8 @@ class Field(tree.Leaf):
         seed_pts = seeds.get_points(center=self.center)
         fld_dat = interp_trilin(self, seed_pts, wrap=False)
         new_fld = self.wrap(fld_dat, context=dict(crds=seeds))
-        new_fld = new_fld.slice_reduce("")
+        if isinstance(new_fld, Field):
+            new_fld = new_fld.slice_reduce("")
         return new_fld
 
     def set_slice(self, selection, value):
-- 
2.43.0


From 93d52379de083c8c48da2efc9b6ebccf0292874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 07/54] fix: selections by location that picked the wrong
 points or failed

A single time given as a string was taken for a slice, numbers failed on time
axes, a lone point matched anything within 1.0, limits at the first point had
no tolerance, substrings of the component names were taken for a component,
and .loc failed for arrays, steps, exponents and joined strings.
---
 viscid/field.py     | 40 ++++++++++++++++++++++++----------------
 viscid/sliceutil.py | 18 ++++++++++++------
 2 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 2050795..514d5d5 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -411,43 +411,51 @@ class _FldSlcProxy(object):
         self.parent = parent
         self.do_floatify = do_floatify
 
+    @staticmethod
+    def _floatify_str(item):
+        """Append a 'j' to the numbers of a selection that lack one"""
+        re_num = (r'(?<![\w\.])(\d+\.?\d*(?:e[+-]?\d+)?|\.\d+(?:e[+-]?\d+)?)'
+                  r'(?![\w\.])')
+        sels = re.split(r'([,_])', item)
+        for i, sel in enumerate(sels):
+            # the step of a slice is a number of points, not a location
+            parts = sel.split(':')
+            parts[:2] = [re.sub(re_num, r'\1j', part) for part in parts[:2]]
+            sels[i] = ':'.join(parts)
+        return ''.join(sels)
+
     def _floatify(self, item):
         if isinstance(item, string_types):
             item = item.strip().lower()
             dt_re = r"(\s*{0}\s*)".format(viscid.sliceutil.RE_DTIME_SLC_GROUP)
             datetimes = re.findall(dt_re, item)
             item = re.sub(dt_re, '__DATETIME__', item)
-            item = re.sub(r'([\d\.e]+(?![\d\.FfJj]))', r'\1j', item)
+            if self.do_floatify:
+                item = self._floatify_str(item)
             item_split = item.split('__DATETIME__')
             item = [None] * (len(item_split) + len(datetimes))
             item[0::2] = item_split
             item[1::2] = datetimes
             item = ''.join(item)
 
-        if item in (Ellipsis, '...'):
+        if isinstance(item, (np.ndarray, list, tuple)):
+            if self.do_floatify:
+                item = 1j * np.asarray(item, dtype='f8')
+        elif item in (Ellipsis, '...'):
             item = Ellipsis
-        elif item in (np.newaxis, ):
-            item = np.newaxis
-        elif item in (None, 'none'):
+        elif item in (None, np.newaxis, 'none'):
             item = None
-        elif isinstance(item, (np.ndarray,)):
-            if self.do_floatify:
-                item = 1j * item
         elif isinstance(item, string_types):
             pass
-        elif isinstance(item, (list,)):
-            for i, _ in enumerate(item):
-                # try:
-                if self.do_floatify:
-                    item[i] = 1j * float(item[i])
-                # except (ValueError, TypeError):
-                #     pass
         else:
             if self.do_floatify:
                 item = 1j * float(item)
         return item
 
     def _xform(self, item):
+        if isinstance(item, string_types):
+            # one string can hold the selections of several axes
+            return self._floatify(item)
         if not isinstance(item, tuple):
             item = (item, )
         sel = []
@@ -1359,7 +1367,7 @@ class Field(tree.Leaf):
         fld_dat = interp_trilin(self, seed_pts, wrap=False)
         new_fld = self.wrap(fld_dat, context=dict(crds=seeds))
         if isinstance(new_fld, Field):
-            new_fld = new_fld.slice_reduce("")
+            new_fld = new_fld.slice_reduce(Ellipsis)
         return new_fld
 
     def set_slice(self, selection, value):
diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 1873b7a..23f3ddf 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -48,7 +48,7 @@ def prune_comp_sel(sel_list, comp_names):
     for i, s in enumerate(sel_list):
         try:
             s = s.strip().lower()
-            if s in comp_names:
+            if s in list(comp_names):
                 if comp_idx is not None:
                     raise IndexError("Multiple vector component slices given, {0}"
                                      "".format(tuple(sel_list)))
@@ -308,6 +308,9 @@ def standardize_sel(sel):
 
         if sel[0] == '[' and sel[-1] == ']':
             sel = standardize_value(sel, bool_argwhere=True)
+        elif _is_time_str(sel) and (sel[0] in 'ut' or '-' in sel):
+            # a single time, the colons belong to it
+            sel = standardize_value(sel, bool_argwhere=True)
         elif ':' in sel:
             sel = slice(*[standardize_value(s, bool_argwhere=True)
                           for s in _split_slice_str(sel)])
@@ -546,7 +549,7 @@ def std_sel2index(std_sel, crd_arr, val_endpoint=True, interior=False,
                 diff = np.ma.masked_less(diff, zero)
 
             if ustep > 0:
-                if ustop < crd_arr[0]:
+                if np.ma.count(diff) == 0:
                     # stop value is past the wong end of the array
                     ustop = 0
                 else:
@@ -554,7 +557,7 @@ def std_sel2index(std_sel, crd_arr, val_endpoint=True, interior=False,
                     if val_endpoint:
                         ustop += 1
             else:
-                if ustop > crd_arr[-1]:
+                if np.ma.count(diff) == 0:
                     # stop value is past the wrong end of the array
                     ustop = len(crd_arr)
                 else:
@@ -621,7 +624,8 @@ def _unify_sbv_types(std_val, crd_arr, tdunit='s', epoch=None):
             uval = std_val
         elif isinstance(crd_arr[0], np.timedelta64):
             if isinstance(std_val[0, 0], np.floating):
-                uval = as_timedelta64(std_val, unit=tdunit)
+                uval = as_timedelta64(std_val.reshape(-1), unit=tdunit)\
+                    .reshape(std_val.shape)
             elif isinstance(std_val[0, 0], np.datetime64):
                 if epoch is None:
                     raise NotImplementedError("Can't slice-by-location a timedelta64 "
@@ -631,7 +635,8 @@ def _unify_sbv_types(std_val, crd_arr, tdunit='s', epoch=None):
                     uval = time_diff(std_val, epoch, most_precise=True)
         elif isinstance(crd_arr[0], np.datetime64):
             if isinstance(std_val[0, 0], np.floating):
-                std_val = as_timedelta64(std_val, unit=tdunit)
+                std_val = as_timedelta64(std_val.reshape(-1), unit=tdunit)\
+                    .reshape(std_val.shape)
                 uval = crd_arr[0] + std_val
             elif isinstance(std_val[0, 0], np.timedelta64):
                 uval = crd_arr[0] + std_val
@@ -659,7 +664,8 @@ def _unify_sbv_types(std_val, crd_arr, tdunit='s', epoch=None):
             if len(crd_arr) > 1:
                 tol = 0.0001 * np.min(np.diff(crd_arr))
             else:
-                tol = 1.0
+                # there is no grid spacing to go by, only allow for roundoff
+                tol = 100 * np.finfo(uval.dtype).eps * np.max(np.abs(uval))
         elif isinstance(uval[0, 0], np.datetime64):
             tol = as_timedelta64(0, 's')
         elif isinstance(uval[0, 0], np.timedelta64):
-- 
2.43.0


From 8285763c5f77973392621bdf6280dbed981cafea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 08/54] fix: forward slices of empty, out of range and index
 array selections

make_fwd_slice failed for empty and out of range slices, for sequences other
than lists and for negative integers; now the elements needed are worked out
with range objects, and index arrays are supported.
---
 viscid/sliceutil.py | 94 +++++++++++++++------------------------------
 1 file changed, 30 insertions(+), 64 deletions(-)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 23f3ddf..a7c79eb 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -836,8 +836,6 @@ selection2values = sel2values
 
 #######################################################################
 
-# FIXME: is this graceful on slice-by-ndarray?
-
 def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
     """Make sure slices go forward
 
@@ -853,10 +851,6 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
     of large arrays on disk, which is most useful when the large array
     is coming through sshfs.
 
-    Note:
-        The only restriction on slices is that neither start nor stop
-        can be outide the range [-L, L].
-
     Args:
         shape: shape of the array that is to be sliced
         slices: a tuple of slices to work with
@@ -902,8 +896,9 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
         slices = [slices]
     if not isinstance(reverse, (list, tuple)):
         reverse = [reverse]
+    slices, reverse = list(slices), list(reverse)
 
-    newax_inds = [i for i, x in enumerate(slices) if x == np.newaxis]
+    newax_inds = [i for i, x in enumerate(slices) if x is np.newaxis]
     shape = list(shape)
     for i in newax_inds:
         shape.insert(i, 1)
@@ -918,70 +913,41 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
 
     for i, slc, L, rev in izip(count(), slices, shape, reverse):
         if isinstance(slc, slice):
-            step = slc.step if slc.step is not None else 1
-            start = slc.start if slc.start is not None else 0
-            stop = slc.stop if slc.stop is not None else L
-            if start < 0:
-                start += L
-            if stop < 0:
-                stop += L
-
-            # sanity check the start/stop since we're gunna be playing
-            # fast and loose with them
-            if start < 0 or stop < 0:
-                raise IndexError("((start = {0}) or (stop = {1})) < 0"
-                                 "".format(start, stop))
-            if start > L or stop > L:
-                raise IndexError("((start={0}) or (stop={1})) > (L={2})"
-                                 "".format(start, stop, L))
-
-            # now do the math of flipping the slice if needed, these branches
-            # change start, stop, and step so they can be used to create a new
-            # slice below
+            # the elements that are needed, in order
+            inds = range(*slc.indices(L))
             if rev:
-                if step < 0:
-                    step = -step
-                    if slc.start is None:
-                        start = L - 1
-                    if slc.stop is None:
-                        start = L - 1 - start
-                        stop = None
-                    else:
-                        start, stop = L - 1 - start, L - 1 - stop
-                else:
-                    start, stop = L - stop, L - start
-                    start += ((stop - 1 - start) % step)
-                    second_slc[i] = slice(None, None, -1)
-            elif step < 0:
-                step = -step
-                if slc.start is None:
-                    start = L - 1
-
-                if slc.stop is None:
-                    start, stop = 0, start + 1
-                    start = ((stop - 1 - start) % step)
-                else:
-                    start, stop = stop + 1, start + 1
-                    start += ((stop - 1 - start) % step)
+                inds = [L - 1 - ind for ind in inds]
 
-                second_slc[i] = slice(None, None, -1)
-
-            # check that our slice is valid
-            assert start is None or (start >= 0 and start <= L), \
-                "start (={0}) is outside range".format(start)
-            assert start is None or (start >= 0 and start <= L), \
-                "start (={0}) is outside range".format(start)
-            assert start is None or stop is None or start == stop == 0 or \
-                start < stop, "bad slice ordering: {0} !< {1}".format(start, stop)
-            assert step > 0
-            slc = slice(start, stop, step)
+            if len(inds) == 0:
+                slc = slice(0, 0, 1)
+            else:
+                step = abs(inds[1] - inds[0]) if len(inds) > 1 else 1
+                if inds[-1] < inds[0]:
+                    second_slc[i] = slice(None, None, -1)
+                slc = slice(min(inds[0], inds[-1]), max(inds[0], inds[-1]) + 1,
+                            step)
 
         elif isinstance(slc, (int, np.integer)):
+            if slc < -L or slc >= L:
+                raise IndexError("index {0} is out of bounds for size {1}"
+                                 "".format(slc, L))
+            slc = slc + L if slc < 0 else slc
             second_slc[i] = None
             if rev:
                 slc = (L - 1) - slc
 
-        elif slc == np.newaxis:
+        elif isinstance(slc, (list, np.ndarray)):
+            # read the range that covers all indices, then pick from that
+            inds = np.arange(L)[np.asarray(slc)]
+            if rev:
+                inds = (L - 1) - inds
+            if len(inds) == 0:
+                slc = slice(0, 0, 1)
+            else:
+                slc = slice(int(np.min(inds)), int(np.max(inds)) + 1, 1)
+                second_slc[i] = inds - np.min(inds)
+
+        elif slc is np.newaxis:
             second_slc[i] = "NEWAXIS"
 
         first_slc[i] = slc
@@ -989,7 +955,7 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
     first_slc = [s for s in first_slc if s is not np.newaxis]
     if cull_second:
         second_slc = [s for s in second_slc if s is not None]
-    second_slc = [np.newaxis if s == "NEWAXIS" else s for s in second_slc]
+    second_slc = [np.newaxis if isinstance(s, str) else s for s in second_slc]
     return first_slc, second_slc
 
 #######################################################################
-- 
2.43.0


From 2f4da9a4eaffa2b5e2b5e8f2e9abe89be6a9851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 09/54] fix: slicing lazy vector fields in a layout other than
 the one on disk

When the components are stored at a different position than the field's
layout asks for, data was transposed wrongly on load, and hyperslices put the
component selection on a spatial axis. Also handle new axes, index arrays and
single points in lazy selections.
---
 viscid/field.py            | 109 +++++++++++++++++++++----------------
 viscid/readers/openggcm.py |   2 +-
 2 files changed, 62 insertions(+), 49 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 514d5d5..0554890 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -8,7 +8,7 @@ convenience functions for creating fields similar to `Numpy`.
 """
 
 from __future__ import print_function
-from itertools import count, islice
+from itertools import count
 from inspect import isclass
 import re
 
@@ -16,7 +16,7 @@ import numpy as np
 
 import viscid
 from viscid import logger
-from viscid.compat import string_types, izip_longest
+from viscid.compat import string_types, izip
 from viscid import coordinate
 from viscid.cython import interp_trilin
 from viscid import sliceutil
@@ -627,6 +627,7 @@ class Field(tree.Leaf):
                 self.clear_cache()
         self.deep_meta["force_layout"] = new_layout
         self._layout = None
+        self._nr_comp = None
 
     @property
     def nr_dims(self):
@@ -689,6 +690,15 @@ class Field(tree.Leaf):
                                    "can't give nr_comp")
         return self._nr_comp
 
+    @property
+    def _src_nr_comp(self):
+        """Like nr_comp, but for _src_data, which may still have to be
+        translated to a different layout"""
+        if self._detect_layout(self._src_data) == LAYOUT_FLAT:
+            return 0
+        else:
+            return self._src_crds.nr_dims
+
     @property
     def shape(self):
         """ returns the shape of the underlying data, does not explicitly load
@@ -881,7 +891,7 @@ class Field(tree.Leaf):
                     # spatial_transpose = list(range(len(self.shape)))
                     spatial_transpose = list(range(len(self._src_data.shape)))
                     if self.nr_comps > 0:
-                        nr_comp = self.nr_comp
+                        nr_comp = self._src_nr_comp
                         spatial_transpose.remove(nr_comp)
                         spatial_transpose = spatial_transpose[::-1]
                         spatial_transpose.insert(nr_comp, nr_comp)
@@ -1159,15 +1169,21 @@ class Field(tree.Leaf):
         #     native_slices = slices
 
         if self._cache is None and src_is_fld_list:
+            # single points come back as numbers
+            target_shape = tuple(crds.shape_cc if cc else crds.shape_nc)
             if single_comp_slc:
                 # this may not work as advertised since slices may
                 # not be complete?
                 # using xyz slices because it's calling Field.__getitem__
                 slced_dat = self._src_data[comp_slc][tuple(slices)]
+                if not isinstance(slced_dat, Field):
+                    slced_dat = np.reshape(slced_dat, target_shape)
             else:
                 comps = self._src_data[comp_slc]
                 # using xyz slices because it's calling Field.__getitem__
                 slced_dat = [c[tuple(slices)] for c in comps]
+                slced_dat = [d if isinstance(d, Field) else
+                             np.reshape(d, target_shape) for d in slced_dat]
         elif self._cache is None and hypersliceable:
             # we have to flip the slice, meaning: if the array looks like
             # ind     : 0    1     2    3    4    5    6
@@ -1181,44 +1197,37 @@ class Field(tree.Leaf):
             # We will always read _src_data forward, then flip it since
             # h5py won't do a slice of [3:0:-1]
 
-            # using xyz slices b/c that's the order of the crds
-            first_slc, second_slc = self._src_crds.reflect_slices(slices,
+            # using xyz slices b/c that's the order of the crds; new axes
+            # don't exist on disk, they come in when the result is wrapped
+            xyz_slices = [slc for slc in slices if slc is not np.newaxis]
+            first_slc, second_slc = self._src_crds.reflect_slices(xyz_slices,
                                                                   cc, False)
 
             if zyx_native:
-                native_first_slc = first_slc[::-1]
-                native_second_slc = second_slc[::-1]
+                _first, _second = first_slc[::-1], second_slc[::-1]
             else:
-                native_first_slc = first_slc
-                native_second_slc = second_slc
+                _first, _second = list(first_slc), list(second_slc)
+            _shape = list(self.native_sshape)
 
-            # now put component slice back in
-            try:
-                if self.nr_comp == 0:
-                    nr_comp = 0
-                else:
-                    nr_comp = len(first_slc)
-                first_slc.insert(nr_comp, comp_slc)
-                native_first_slc.insert(nr_comp, comp_slc)
-                if not single_comp_slc:
-                    second_slc.insert(nr_comp, slice(None))
-                    native_second_slc.insert(nr_comp, slice(None))
-            except TypeError:
-                nr_comp = None
+            # now put component slice back in, where the source has it
+            if self.nr_comps:
+                src_nr_comp = 0 if self._src_nr_comp == 0 else len(_first)
+                _first.insert(src_nr_comp, comp_slc)
+                _second.insert(src_nr_comp,
+                               None if single_comp_slc else slice(None))
+                _shape.insert(src_nr_comp, self.nr_comps)
 
             # this is a bad hack for the fact that fields and the slices
             # have 3 spatial dimensions, but the src_data may have fewer
-            _first, _second = native_first_slc, native_second_slc
             if len(self._src_data.shape) != len(_first):
+                all_first, all_second = _first, _second
                 _first, _second = [], []
-                j = 0  # trailing index
-                it = izip_longest(count(), native_first_slc, native_second_slc,
-                                  fillvalue=None)
-                for i, a, b in islice(it, None, len(first_slc)):
-                    if self._src_data.shape[j] == self.native_shape[i]:
+                for n, a, b in izip(_shape, all_first, all_second):
+                    j = len(_first)  # trailing index
+                    if (j < len(self._src_data.shape) and
+                            self._src_data.shape[j] == n):
                         _first.append(a)
                         _second.append(b)
-                        j += 1
 
             # ok, now cull out from the second slice
             _second = [s for s in _second if s is not None]
@@ -1229,29 +1238,33 @@ class Field(tree.Leaf):
                 # these sliced have to be native b/c they're slicing the
                 # _src_data directly which means the data could be stored
                 # zyx in a lazy hdf5 file
-                slced_dat = self._src_data[tuple(_first)][tuple(_second)]
-                if zyx_native:
-                    if comp_slc is not None and self.nr_comps and not single_comp_slc:
-                        _n = len(slced_dat.shape)
-                        if self.nr_comp == 0:
-                            _t_axes = [0] + list(range(1, _n))[::-1]
-                        else:
-                            # this is slightly fragile if they layout isn't
-                            # strictly interlaced, but that would be rather
-                            # pathalogical
-                            _t_axes = list(range(_n - 1))[::-1] + [_n - 1]
-                        slced_dat = np.array(np.transpose(slced_dat, _t_axes))
-                    else:
-                        slced_dat = np.array(slced_dat.T)
+                slced_dat = np.asarray(self._src_data[tuple(_first)])
+                slced_dat = sliceutil.orthogonal_getitem(slced_dat, _second)
+                _t_axes = list(range(slced_dat.ndim))
+                if self.nr_comps and not single_comp_slc:
+                    # put the components where self.layout has them
+                    _comp_ax = _t_axes.pop(0 if src_nr_comp == 0 else -1)
+                    if zyx_native:
+                        _t_axes.reverse()
+                    _t_axes.insert(0 if self.nr_comp == 0 else len(_t_axes),
+                                   _comp_ax)
+                elif zyx_native:
+                    _t_axes.reverse()
+                slced_dat = np.array(np.transpose(slced_dat, _t_axes))
 
                 # post-reshape-transform
                 if self.post_reshape_transform_func is not None:
                     if cc:
-                        target_shape = crds.shape_cc
+                        target_shape = list(crds.shape_cc)
                     else:
-                        target_shape = crds.shape_nc
-                    if nr_comp is not None:
-                        target_shape.insert(nr_comp, -1)
+                        target_shape = list(crds.shape_nc)
+                    if self.nr_comps:
+                        nr_comp = 0 if self.nr_comp == 0 else len(target_shape)
+                        if single_comp_slc:
+                            _n = 1
+                        else:
+                            _n = slced_dat.shape[0 if nr_comp == 0 else -1]
+                        target_shape.insert(nr_comp, _n)
                     slced_dat = self.post_reshape_transform_func(
                         self, crds, slced_dat.reshape(target_shape),
                         comp_slc=comp_slc, **self.transform_func_kwargs)
@@ -1269,7 +1282,7 @@ class Field(tree.Leaf):
             # use xyz slices cause self.data is guarenteed to be xyz
             slced_dat = sliceutil.orthogonal_getitem(self.data, slices)
 
-        if len(reduced) == len(slices) or getattr(slced_dat, 'size', 0) == 1:
+        if getattr(slced_dat, 'size', 0) == 1:
             # if we sliced the hell out of the array, just
             # return the value that's left, ndarrays have the same behavior
             ret = slced_dat.item()
diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index 2bbeb21..3d2207b 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -160,7 +160,7 @@ def mhd2gse_field_vector(fld, crds, arr, comp_slc=None,
     factor = np.array([-1.0, -1.0, 1.0], dtype=arr.dtype).reshape(shp)
     if comp_slc is not None:
         tmpslc = [slice(None) if s == 1 else comp_slc for s in shp]
-        factor = factor[tmpslc]
+        factor = factor[tuple(tmpslc)]
     # print("** factor", factor.shape, factor.flatten())
     if copy_on_transform:
         if _has_numexpr:
-- 
2.43.0


From 111f6449a638f01fddf72f3979e77a91e8fc07f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 10/54] fix: operations on vector fields of different layouts,
 reductions of vectors

Components are lined up when vector fields of different layouts, or scalar and
interlaced vector fields, are combined. Reductions of vector fields removed
the wrong coordinates, and several axes at once, cumsum and cumprod failed.
as_layout could return None, dat2field ignored its layout, and normalize
scrambled interlaced fields.
---
 viscid/calculator/necalc.py | 14 ++++--
 viscid/field.py             | 87 ++++++++++++++++++++++---------------
 2 files changed, 63 insertions(+), 38 deletions(-)

diff --git a/viscid/calculator/necalc.py b/viscid/calculator/necalc.py
index 8ce136b..e558be3 100644
--- a/viscid/calculator/necalc.py
+++ b/viscid/calculator/necalc.py
@@ -45,7 +45,11 @@ class VneCalc(object):
 
         for name, val in self.local_dict.items():
             if isinstance(val, int):
-                ldict[name] = _normalize_scalar_dtype(args[val], args)
+                arg = args[val]
+                if val > 0 and hasattr(args[0], "_ow"):
+                    # line up vector components
+                    arg = args[0]._ow(arg)
+                ldict[name] = _normalize_scalar_dtype(arg, args)
             else:
                 ldict[name] = val
 
@@ -57,7 +61,7 @@ class VneCalc(object):
         # print(ldict)
         result = ne.evaluate(self.expr, local_dict=ldict)
         return args[0].wrap(result, context=self.ret_context,
-                            fldtype=self.ret_type)
+                            fldtype=self.ret_type, other=args[-1])
 
 neg = VneCalc("-a", {'a': 0})
 add = VneCalc("a + b", {'a': 0, 'b': 1})
@@ -75,7 +79,8 @@ def scale(a, fld):
 def axpby(a, x, b, y):
     a = _normalize_scalar_dtype(a, [x, y])
     b = _normalize_scalar_dtype(b, [x, y])
-    return x.wrap(ne.evaluate("a * x + b * y"))
+    _y = x._ow(y) if hasattr(x, "_ow") else y  # pylint: disable=W0612
+    return x.wrap(ne.evaluate("a * x + b * _y"), other=y)
 
 def abs_max(fld):
     a = fld.data  # pylint: disable=W0612
@@ -129,7 +134,8 @@ def project(fld_a, fld_b):
 
 def normalize(fld_a):
     """ normalize a vector field """
-    a = fld_a.as_flat().data
+    fld_a = fld_a.as_flat()
+    a = fld_a.data  # pylint: disable=W0612
     ax, ay, az = fld_a.component_views()  # pylint: disable=W0612
     normed = ne.evaluate("a / sqrt((ax**2) + (ay**2) + (az**2))")
     return fld_a.wrap(normed, fldtype="Vector")
diff --git a/viscid/field.py b/viscid/field.py
index 0554890..a1f3140 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -100,7 +100,7 @@ def arrays2field(crd_arrs, dat_arr, name="NoName", center=None,
 
 def dat2field(dat_arr, name="NoName", fldtype="scalar", center=None,
               layout=LAYOUT_FLAT):
-    """Makes np.arange coordnate arrays and calls arrays2field
+    """Makes np.arange node centered coordnate arrays for some data
 
     Args:
         dat_arr (ndarray): data
@@ -124,7 +124,13 @@ def dat2field(dat_arr, name="NoName", fldtype="scalar", center=None,
         raise ValueError("Unknown type: {0}".format(fldtype))
 
     crd_arrs = [np.arange(s).astype(dat_arr.dtype) for s in sshape]
-    return arrays2field(crd_arrs, dat_arr, name=name, center=center)
+    crds = coordinate.arrays2crds(crd_arrs)
+    kwargs = {}
+    if fldtype.lower() == "vector":
+        kwargs["_src_layout"] = layout
+    fld = wrap_field(dat_arr, crds, name=name, fldtype=fldtype, center="node",
+                     **kwargs)
+    return fld.as_centered(center)
 
 def full(crds, fill_value, dtype="f8", name="NoName", center="cell",
          layout=LAYOUT_FLAT, nr_comps=0, crd_type=None, crd_names="xyzuvw",
@@ -1873,24 +1879,28 @@ class Field(tree.Leaf):
         # should it always return the same type as self?
 
         # hack for reduction operations (ops that have npkwargs['axis'])
-        defer_wrapping = self.defer_wrapping
-        if npkwargs:
-            axis = npkwargs.get('axis', None)
-            if axis is not None:
-                if self.nr_comps > 0 and axis == self.nr_comp:
-                    # reducing vector -> scalar, no need to play with crds
-                    pass
+        if npkwargs and npkwargs.get('axis', None) is not None:
+            axes = npkwargs['axis']
+            if not isinstance(axes, (tuple, list)):
+                axes = (axes, )
+            axes = [ax + self.nr_dims if ax < 0 else ax for ax in axes]
+            default_keepdims = not self.nr_comps
+            if default_keepdims and "keepdims" not in npkwargs:
+                for ax in sorted(axes):
+                    arr = np.expand_dims(arr, ax)
+
+            # which crds did those axes belong to; reducing vector -> scalar
+            # doesn't need to play with crds
+            if self.nr_comps:
+                axes = [ax - 1 if ax > self.nr_comp else ax for ax in axes
+                        if ax != self.nr_comp]
+            if axes:
+                crd_slc = ",".join("{0}=0".format(crds.axes[ax]) for ax in axes)
+                iscc = not self.iscentered('node')
+                if npkwargs.get("keepdims", default_keepdims):
+                    crds = crds.slice_keep(crd_slc, cc=iscc)
                 else:
-                    reduce_axis = crds.axes[axis]
-                    crd_slc = "{0}=0".format(reduce_axis)
-                    default_keepdims = len(self.shape) == len(crds.shape)
-                    iscc = self.iscentered('cell')
-
-                    if npkwargs.get("keepdims", default_keepdims):
-                        crds = self.crds.slice_keep(crd_slc, cc=iscc)
-                    else:
-                        crds = self.crds.slice_reduce(crd_slc, cc=iscc)
-                    defer_wrapping = True
+                    crds = crds.slice(crd_slc, cc=iscc)
 
         # little hack for broadcasting vectors and scalars together
         crd_shape = crds.shape_nc if center == "node" else crds.shape_cc
@@ -1915,6 +1925,8 @@ class Field(tree.Leaf):
         # don't move the components around
         if self.nr_comps and "src_layout" not in context:
             context["src_layout"] = self.layout
+        elif getattr(other, "nr_comps", 0) and "src_layout" not in context:
+            context["src_layout"] = LAYOUT_FLAT
 
         # Transform functions are intentionally omitted. The idea being that
         # the transform was already applied when creating arr
@@ -2057,20 +2069,20 @@ class Field(tree.Leaf):
         return self.data.argpartition(**kwargs)
     def argsort(self, axis=-1, kind='quicksort', order=None, **kwargs):
         kwargs.update(axis=axis, kind=kind, order=order)
-        return self.wrap(self.data.argsort(**kwargs), npkwargs=kwargs)
+        return self.wrap(self.data.argsort(**kwargs))
     def clip(self, min=None, max=None, out=None, **kwargs):
         kwargs.update(min=min, max=max, out=out)
-        return self.wrap(self.data.clip(**kwargs), npkwargs=kwargs)
+        return self.wrap(self.data.clip(**kwargs))
     def conj(self, **kwargs):
         return self.wrap(self.data.conj(**kwargs), npkwargs=kwargs)
     def conjugate(self, **kwargs):
         return self.wrap(self.data.conjugate(**kwargs), npkwargs=kwargs)
-    def cumprod(self, axis=None, dtype=None, order=None, **kwargs):
-        kwargs.update(axis=axis, dtype=dtype, order=order)
-        return self.wrap(self.data.cumprod(**kwargs), npkwargs=kwargs)
-    def cumsum(self, axis=None, dtype=None, order=None, **kwargs):
-        kwargs.update(axis=axis, dtype=dtype, order=order)
-        return self.wrap(self.data.cumsum(**kwargs), npkwargs=kwargs)
+    def cumprod(self, axis=None, dtype=None, out=None, **kwargs):
+        kwargs.update(axis=axis, dtype=dtype, out=out)
+        return self.wrap(self.data.cumprod(**kwargs))
+    def cumsum(self, axis=None, dtype=None, out=None, **kwargs):
+        kwargs.update(axis=axis, dtype=dtype, out=out)
+        return self.wrap(self.data.cumsum(**kwargs))
     def max(self, **kwargs):
         return self.wrap(self.data.max(**kwargs), npkwargs=kwargs)
     def mean(self, **kwargs):
@@ -2337,6 +2349,12 @@ class ScalarField(Field):
         else:
             return self
 
+    def _ow(self, other):
+        # put the components of a vector first so numpy can broadcast
+        if isinstance(other, VectorField):
+            return np.moveaxis(other.__array__(), other.nr_comp, 0)
+        return super(ScalarField, self)._ow(other)
+
 
 class VectorField(Field):
     _TYPE = "vector"
@@ -2398,13 +2416,12 @@ class VectorField(Field):
 
         ret = None
         if self.layout == to_layout:
-            if force_c_contiguous:
-                if not self.data.flags['C_CONTIGUOUS']:
-                    # print("calling np.ascontiguousarray")
-                    ret = self.wrap(np.ascontiguousarray(self.data))
-                else:
-                    # print("returning self")
-                    ret = self
+            if force_c_contiguous and not self.data.flags['C_CONTIGUOUS']:
+                # print("calling np.ascontiguousarray")
+                ret = self.wrap(np.ascontiguousarray(self.data))
+            else:
+                # print("returning self")
+                ret = self
         else:
             ctx = dict(force_layout=to_layout)
             # the data load is going to wrap the array, i think it's
@@ -2425,6 +2442,8 @@ class VectorField(Field):
                     return other.__array__()[..., np.newaxis]
                 elif self.layout == 'flat':
                     return other.__array__()[np.newaxis, ...]
+            elif isinstance(other, VectorField):
+                return np.moveaxis(other.__array__(), other.nr_comp, self.nr_comp)
             return other.__array__()
         except AttributeError:
             return other
-- 
2.43.0


From b73ac16af44243b1c8865a9f40e1aeef0d67ac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 11/54] fix: extents, cell spacings and re-centering of uniform
 and stretched coordinates

---
 viscid/coordinate.py           | 93 +++++++++++++++++++++-------------
 viscid/field.py                |  3 +-
 viscid/mapfield.py             |  7 ++-
 viscid/readers/numpy_binary.py |  2 +-
 4 files changed, 65 insertions(+), 40 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index fb5a69c..7b63c87 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -495,8 +495,10 @@ class StructuredCrds(Coordinates):
         sfx = self._CENTER["cell"]
         for i, a in enumerate(self.axes):
             # a = self.axis_name(a)  # validate input
-            if a in self._src_crds_cc:
+            if self._src_crds_cc.get(a, None) is not None:
                 ccarr = self._src_crds_cc[a]
+                if a in self.reflect_axes:
+                    ccarr = self._reflect_axis_arr(ccarr)
             else:
                 # doing the cc math this way also works for datetime objects
                 if len(self._Pcrds[a]) == 1:
@@ -605,14 +607,19 @@ class StructuredCrds(Coordinates):
         Returns:
             New coordinates instance with same type as self
         """
-        axes = self.axes
-        crds_nc = self.get_crds_nc()
-        crds_cc = self.get_crds_cc()
-        for i, x_cc in enumerate(crds_cc):
-            crds_nc[i] = extend_arr(x_cc, default_width=default_width,
-                                    width_arr=crds_nc[i])
-        new_clist = [(ax, nc) for ax, nc in zip(axes, crds_nc)]
-        return type(self)(new_clist)
+        new_clist = []
+        for ax, x_nc, x_cc in zip(self.axes, self.get_crds_nc(), self.get_crds_cc()):
+            if len(x_nc) == 1:
+                new_nc = np.concatenate([x_nc - 0.5 * default_width,
+                                         x_nc + 0.5 * default_width])
+            else:
+                new_nc = extend_arr(x_cc, default_width=default_width,
+                                    width_arr=x_nc)
+            # the nodes become the centers of the new cells, even if they
+            # aren't exactly half way between their edges
+            new_clist.append((ax, new_nc, x_nc))
+        return type(self)(new_clist, units=self.units, dtype=self._dtype,
+                          **self.meta)
 
     @staticmethod
     def _cc_subset(crd_nc, crd_cc, kept, strided=False, reverse=False):
@@ -1038,11 +1045,11 @@ class StructuredCrds(Coordinates):
 
         ret = [[axis, self.get_crd(axis, center=center)[slc].copy()] for axis in axes]
 
-        # # slc was never None, what was this for?
-        # if slc is None and full_arrays and center == 'node' and self._src_crds_cc:
-        #     for i, axis in enumerate(axes):
-        #         if axis in self._src_crds_cc:
-        #             ret[i].append(self._src_crds_cc[axis].copy())
+        # cell centers that are not simply half way between the nodes
+        if slc is Ellipsis and center == 'node':
+            for item in ret:
+                if self._src_crds_cc.get(item[0], None) is not None:
+                    item.append(self.get_cc(item[0]).copy())
         return ret
 
     ## These methods just return one crd axis
@@ -1192,7 +1199,8 @@ class StructuredCrds(Coordinates):
             axes3 = axes3[:3 - len(current_axes)]
             for idx, ax in zip(target_idx, axes3):
                 new_clist.insert(idx, (ax, self._newax_cval(xl, xh, cc)))
-            return type(self)(new_clist)
+            units = self.get_units([c[0] for c in new_clist], allow_invalid=True)
+            return type(self)(new_clist, units=units, **self.meta)
 
     def print_tree(self):
         c = self.get_clist()
@@ -1301,35 +1309,48 @@ class UniformCrds(StructuredCrds):
         self._nc_linspace_args = _nc_linspace_args
         self._cc_linspace_args = []
         for args in _nc_linspace_args:
-            half_dx = 0.5 * (args[1] - args[0]) / max(args[2], 1)
+            half_dx = 0.5 * (args[1] - args[0]) / max(args[2] - 1, 1)
             cc_args = [args[0] + half_dx, args[1] - half_dx,
                        max(args[2] - 1, 0)]
             self._cc_linspace_args.append(cc_args)
 
+        init_clist = [(axis, None) for axis, _ in init_clist]
+        super(UniformCrds, self).__init__(init_clist, dtype=self.dtype,
+                                          **kwargs)
+        self._set_bounds()
+
+    @property
+    def reflect_axes(self):
+        return self._reflect_axes
+
+    @reflect_axes.setter
+    def reflect_axes(self, val):
+        StructuredCrds.reflect_axes.fset(self, val)
+        if self.shape_nc is not None:
+            self._set_bounds()
+
+    def _reflected_args(self, linspace_args):
+        return [[-args[1], -args[0], args[2]] if ax in self.reflect_axes else args
+                for ax, args in zip(self._axes, linspace_args)]
+
+    def _set_bounds(self):
+        nc_args = self._reflected_args(self._nc_linspace_args)
+        cc_args = self._reflected_args(self._cc_linspace_args)
+
         # node centered things
-        self.xl_nc = np.array([args[0] for args in self._nc_linspace_args],
-                              dtype=self.dtype)
-        self.xh_nc = np.array([args[1] for args in self._nc_linspace_args],
-                              dtype=self.dtype)
-        self.shape_nc = np.array([args[2] for args in self._nc_linspace_args],
-                                 dtype='int')
+        self.xl_nc = np.array([args[0] for args in nc_args], dtype=self.dtype)
+        self.xh_nc = np.array([args[1] for args in nc_args], dtype=self.dtype)
+        self.shape_nc = np.array([args[2] for args in nc_args], dtype='int')
         self.L_nc = self.xh_nc - self.xl_nc
-        self.min_dx_nc = self.L_nc / self.shape_nc
+        self.min_dx_nc = self.L_nc / np.clip(self.shape_nc - 1, 1, None)
         self.min_dx_nc = np.ma.masked_values(self.min_dx_nc, 0.0)
 
         # cell centered things
-        self.xl_cc = np.array([args[0] for args in self._cc_linspace_args],
-                              dtype=self.dtype)
-        self.xh_cc = np.array([args[1] for args in self._cc_linspace_args],
-                              dtype=self.dtype)
-        self.shape_cc = np.array([args[2] for args in self._cc_linspace_args],
-                                 dtype='int')
+        self.xl_cc = np.array([args[0] for args in cc_args], dtype=self.dtype)
+        self.xh_cc = np.array([args[1] for args in cc_args], dtype=self.dtype)
+        self.shape_cc = np.array([args[2] for args in cc_args], dtype='int')
         self.L_cc = self.xh_cc - self.xl_cc
-        self.min_dx_cc = self.L_cc / np.clip(self.shape_cc, 1, None)
-
-        init_clist = [(axis, None) for axis, _ in init_clist]
-        super(UniformCrds, self).__init__(init_clist, dtype=self.dtype,
-                                          **kwargs)
+        self.min_dx_cc = self.L_cc / np.clip(self.shape_cc - 1, 1, None)
 
     def _pull_out_axes(self, arrs, axes, center='none'):
         center = center.lower()
@@ -1394,14 +1415,14 @@ class UniformCrds(StructuredCrds):
         """
         axes = self.axes
         xl, xh = self.get_xl(), self.get_xh()
-        dx = (xh - xl) / self.shape_nc
+        dx = (xh - xl) / np.clip(self.shape_nc - 1, 1, None)
         # FIXME: I don't think this will extend datetime64/timedelta64 axes
         dx = np.choose(np.abs(dx) > 0, [default_width, dx])
         xl -= 0.5 * dx
         xh += 0.5 * dx
         nx = self.shape_nc + 1
         new_clist = [(ax, [xl[i], xh[i], nx[i]]) for i, ax in enumerate(axes)]
-        return type(self)(new_clist)
+        return type(self)(new_clist, units=self.units, **self.meta)
 
     def _newax_cval(self, xl, xh, cc):
         if cc:
diff --git a/viscid/field.py b/viscid/field.py
index a1f3140..bf90b5a 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1680,7 +1680,8 @@ class Field(tree.Leaf):
             # axes = self._src_crds.axes
             # crds_cc = self.get_crds_cc()
             new_clist = self._src_crds.get_clist(center="cell")
-            new_crds = type(self._src_crds)(new_clist)
+            new_crds = type(self._src_crds)(new_clist, units=self._src_crds.units,
+                                            **self._src_crds.meta)
 
             # this is similar to a shell copy, but it's intimately
             # linked to self as a parent
diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 0c5f916..6964594 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -95,7 +95,7 @@ def _fld_xform_common(fld, base, target, unit, crd_xform, dat_xform, raw=False):
         if fld.crds.is_uniform() and not raw:
             clist[dcrd][1][:2] = crd_xform(unit_xform(clist[dcrd][1][:2]))
         else:
-            clist[dcrd][1] = crd_xform(unit_xform(clist[dcrd][1]))
+            clist[dcrd][1:] = [crd_xform(unit_xform(c)) for c in clist[dcrd][1:]]
 
         units = list(fld.crds.units)
         units[dcrd] = unit
@@ -276,7 +276,7 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
         for i in range(2):
             clist[1][1][i] = scale * clist[1][1][i] + offset
     else:
-        clist[1][1] = scale * clist[1][1] + offset
+        clist[1][1:] = [scale * c + offset for c in clist[1][1:]]
 
     mfld_dat = mfld.data
     if make_periodic:
@@ -295,6 +295,9 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
             else:
                 clist[0][1] = np.concatenate([clist[0][1],
                                               [clist[0][1][0] + 2 * np.pi]])
+                if len(clist[0]) > 2:
+                    clist[0][2] = np.concatenate([clist[0][2],
+                                                  [clist[0][2][0] + 2 * np.pi]])
             mfld_dat = np.concatenate([mfld_dat, mfld_dat[0:1, :]], axis=0)
 
     crds = wrap_crds(mfld.crds.crdtype, clist, dtype=mfld.crds.dtype)
diff --git a/viscid/readers/numpy_binary.py b/viscid/readers/numpy_binary.py
index 15be125..0c65091 100644
--- a/viscid/readers/numpy_binary.py
+++ b/viscid/readers/numpy_binary.py
@@ -171,7 +171,7 @@ class FileNumpyNPZ(vfile.VFile):
         fld0 = next(iter(flds.values()))
         clist = fld0.crds.get_clist(full_arrays=True)
         axis_names = []
-        for axis_name, crdarr in clist:
+        for axis_name, crdarr in (c[:2] for c in clist):
             fld_dict[axis_name] = crdarr
             axis_names.append(axis_name)
         fld_dict[cls._KEY_CRDS] = np.array(axis_names)
-- 
2.43.0


From 91a18b6f8a9b2dd7f46737ba69d0048c14905588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 12/54] fix: re-centering axes with one or two nodes, default
 points of coordinates

---
 viscid/coordinate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 7b63c87..2b228c8 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -129,7 +129,7 @@ def extend_arr(x, n=1, cell_fraction=1.0, full_arr=True, default_width=1e-5,
         width_arr = x
 
     if full_arr:
-        if len(x) > 1:
+        if len(width_arr) > 1:
             dxl = cell_fraction * (width_arr[1] - width_arr[0])
             dxh = cell_fraction * (width_arr[-1] - width_arr[-2])
         else:
@@ -1105,7 +1105,7 @@ class StructuredCrds(Coordinates):
     def __array__(self, *args, **kwargs):
         return self.get_points()
 
-    def points(self, center=None, **kwargs):
+    def points(self, center="none", **kwargs):
         return self.get_points(center=center, **kwargs)
 
     def get_points(self, center="none", **kwargs):
@@ -1417,7 +1417,7 @@ class UniformCrds(StructuredCrds):
         xl, xh = self.get_xl(), self.get_xh()
         dx = (xh - xl) / np.clip(self.shape_nc - 1, 1, None)
         # FIXME: I don't think this will extend datetime64/timedelta64 axes
-        dx = np.choose(np.abs(dx) > 0, [default_width, dx])
+        dx = np.choose(self.shape_nc > 1, [default_width, dx])
         xl -= 0.5 * dx
         xh += 0.5 * dx
         nx = self.shape_nc + 1
-- 
2.43.0


From 4654b7482b16b8532eba72e7e1833fb9b8ba2940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 13/54] fix: integrals over negative axes and lone points, axis
 changes of fields that aren't loaded, adjust_crds no longer renames the
 source's axes, downsample

---
 viscid/field.py | 96 ++++++++++++++++++++++++-------------------------
 1 file changed, 48 insertions(+), 48 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index bf90b5a..7effe51 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1738,18 +1738,17 @@ class Field(tree.Leaf):
             newcrds = self.crds.atleast_3d(xl, xh, cc=_cc)
             ctx = {'crds': newcrds}
 
-            if self.is_loaded:
-                if _cc:
-                    new_shape = newcrds.shape_cc
-                else:
-                    new_shape = newcrds.shape_nc
-                if self.nr_comps:
-                    new_shape = list(new_shape)
-                    new_shape.insert(self.nr_comp, self.nr_comps)
-
-                return self.wrap(self.data.reshape(new_shape), context=ctx)
-            else:
-                return self.wrap(self._src_data, context=ctx)
+            # the source data could still need to be transposed, reflected,
+            # or transformed, so this has to use the loaded data
+            was_loaded = self.is_loaded
+            new_shape = list(newcrds.shape_cc if _cc else newcrds.shape_nc)
+            if self.nr_comps:
+                icomp = 0 if self.nr_comp == 0 else len(new_shape)
+                new_shape.insert(icomp, self.nr_comps)
+            ret = self.wrap(self.data.reshape(new_shape), context=ctx)
+            if not was_loaded:
+                self.clear_cache()
+            return ret
 
     def atmost_nd(self, n):
         axes = list(self.crds.axes)
@@ -1798,7 +1797,7 @@ class Field(tree.Leaf):
             for ax in self.crds.axes:
                 adjustments[ax] = adj
 
-        axes = self.crds.axes
+        axes = list(self.crds.axes)
         crd_arrs_nc = self.get_crds_nc()
         # crd_arrs_cc = self.get_crds_cc()
 
@@ -1806,22 +1805,25 @@ class Field(tree.Leaf):
             if ax in adjustments:
                 adj = adjustments[ax]
                 if hasattr(adj, '__call__'):
-                    crd_arrs_nc[i] = adj(arr_nc)
+                    crd_arrs_nc[i] = adj(np.array(arr_nc))
                     # crd_arrs_cc[i] = adj(arr_cc)
                 else:
                     crd_arrs_nc[i] = adj * arr_nc
                     # crd_arrs_cc[i] = adj * arr_cc
 
         if name_map:
-            for _a, _b in name_map.items():
-                if _a in axes:
-                    axes[axes.index(_a)] = _b
+            axes = [name_map.get(ax, ax) for ax in axes]
 
         crd_type = self.crds._TYPE
         crd_type = crd_type.replace('nonuniform', 'AUTO')
         crd_type = crd_type.replace('uniform', 'AUTO')
-        new_crds = viscid.arrays2crds(crd_arrs_nc, crd_type=crd_type, crd_names=axes)
-        ret = self.shell_copy(crds=new_crds)
+        new_crds = viscid.arrays2crds(crd_arrs_nc, crd_type=crd_type, crd_names=axes,
+                                      units=self.crds.units)
+        if self._src_crds.reflect_axes:
+            # the new crds are already reflected, so the data has to be too
+            ret = self.wrap(self.data, context=dict(crds=new_crds))
+        else:
+            ret = self.shell_copy(crds=new_crds)
 
         return ret
 
@@ -2124,6 +2126,7 @@ class Field(tree.Leaf):
         if axis in self.crds.axes:
             axis = self.crds.axes.index(axis)
         assert isinstance(axis, (int, np.integer))
+        axis = range(self.nr_sdims)[axis]
         crd_arr = self.get_crd(axis, shaped=True)
 
         try:
@@ -2141,10 +2144,11 @@ class Field(tree.Leaf):
             arr = self.data * fudge_factor(self.data, crd_arr)
 
         if self.nr_sdims > 1:
+            ret = np.trapz(arr, crd_arr.reshape(-1), axis=fld_axis)
             slc = [slice(None) for _ in self.sshape]
             slc[axis] = 0
-            ret = viscid.empty_like(self[tuple(slc)])
-            ret.data = np.trapz(arr, crd_arr.reshape(-1), axis=fld_axis)
+            ret_crds = self.crds.slice(tuple(slc), cc=not self.iscentered('node'))
+            ret = self.wrap(ret, context=dict(crds=ret_crds))
         else:
             ret = np.trapz(arr, crd_arr.reshape(-1), axis=fld_axis)
         return ret
@@ -2171,6 +2175,7 @@ class Field(tree.Leaf):
             if axis in self.crds.axes:
                 axis = self.crds.axes.index(axis)
             assert isinstance(axis, (int, np.integer))
+            axis = range(self.nr_sdims)[axis]
             crd_arr = self.get_crd(axis, shaped=True)
 
             try:
@@ -2187,9 +2192,8 @@ class Field(tree.Leaf):
             else:
                 arr = self.data * fudge_factor(self.data, crd_arr)
 
-            ret = viscid.empty_like(self)
-            ret.data = _sp_cumtrapz(arr, crd_arr.reshape(-1), axis=fld_axis,
-                                    initial=initial)
+            ret = self.wrap(_sp_cumtrapz(arr, crd_arr.reshape(-1), axis=fld_axis,
+                                         initial=initial))
         except ImportError:
             viscid.logger.error("Scipy is required to perform cumtrapz")
             raise
@@ -2214,12 +2218,13 @@ class Field(tree.Leaf):
     def transpose(self, *axes):
         """ same behavior as numpy transpose, alse accessable
         using np.transpose(fld) """
-        if len(axes) == 1 and axes[0]:
+        if len(axes) == 1 and isinstance(axes[0], (list, tuple, np.ndarray)):
             axes = axes[0]
         if axes == (None, ) or len(axes) == 0:
             axes = list(range(self.nr_dims - 1, -1, -1))
         if len(axes) != self.nr_dims:
             raise ValueError("transpose can not change number of axes")
+        axes = [range(self.nr_dims)[i] for i in axes]
         clist = self._src_crds.get_clist()
         caxes = list(axes)
         if self.nr_comps:
@@ -2317,32 +2322,27 @@ class ScalarField(Field):
     # have the added layer of checking the layout
     def downsample(self):
         """ downsample the spatial dimensions by a factor of 2 """
-        # FIXME: this implementation assumes a lot about the field
-        end = np.array(self.sshape) // 2
+        # average neighboring pairs of values along each axis, the last value
+        # of axes with an odd number of values is dropped
         dat = self.data
+        clist = []
+        for i, axis in enumerate(self.crds.axes):
+            n = 2 * (self.sshape[i] // 2)
+            slc0 = [slice(None)] * self.nr_sdims
+            slc1 = list(slc0)
+            slc0[i] = slice(0, n, 2)
+            slc1[i] = slice(1, n, 2)
+            dat = 0.5 * (dat[tuple(slc0)] + dat[tuple(slc1)])
+            x = self.get_crd_nc(axis)
+            if self.iscentered('node'):
+                clist.append([axis, 0.5 * (x[0:n:2] + x[1:n:2])])
+            else:
+                clist.append([axis, x[0:n + 1:2]])
 
-        if self.nr_sdims == 1:
-            downdat = 0.5 * (dat[:end[0]:2] + dat[1:end[0]:2])
-        elif self.nr_sdims == 2:
-            downdat = 0.25 * (dat[:end[0]:2, :end[1]:2] +
-                              dat[1:end[0]:2, :end[1]:2] +
-                              dat[:end[0]:2, 1:end[1]:2] +
-                              dat[1:end[0]:2, 1:end[1]:2])
-        elif self.nr_sdims == 3:
-            downdat = 0.125 * (dat[:end[0]:2, :end[1]:2, :end[2]:2] +
-                               dat[1:end[0]:2, :end[1]:2, :end[2]:2] +
-                               dat[:end[0]:2, 1:end[1]:2, :end[2]:2] +
-                               dat[:end[0]:2, :end[1]:2, 1:end[2]:2] +
-                               dat[1:end[0]:2, 1:end[1]:2, :end[2]:2] +
-                               dat[1:end[0]:2, :end[1]:2, 1:end[2]:2] +
-                               dat[:end[0]:2, 1:end[1]:2, 1:end[2]:2] +
-                               dat[1:end[0]:2, 1:end[1]:2, 1:end[2]:2])
-
-        downclist = self._src_crds.get_clist(np.s_[::2])
-        cunits = self._src_crds.get_units((c[0] for c in downclist), allow_invalid=1)
-        downcrds = coordinate.wrap_crds("nonuniform_cartesian", downclist,
+        cunits = self._src_crds.get_units((c[0] for c in clist), allow_invalid=1)
+        downcrds = coordinate.wrap_crds("nonuniform_cartesian", clist,
                                         units=cunits, **self._src_crds.meta)
-        return self.wrap(downdat, {"crds": downcrds})
+        return self.wrap(dat, {"crds": downcrds})
 
     def as_layout(self, to_layout, force_c_contiguous=True):
         if force_c_contiguous:
-- 
2.43.0


From 16418599f6df877c0b17b4df4d68fd3b543a8e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 14/54] fix: interpolation of integer fields, of vectors with
 more than 3 components, at far points, and at as many points as components

---
 viscid/cython/cyamr.pyx   |  2 +-
 viscid/cython/cycalc.pyx  | 13 ++++++++++---
 viscid/cython/cyfield.pyx | 21 ++++++++++++---------
 viscid/field.py           | 16 +++++++++-------
 4 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/viscid/cython/cyamr.pyx b/viscid/cython/cyamr.pyx
index 4de6038..2649929 100644
--- a/viscid/cython/cyamr.pyx
+++ b/viscid/cython/cyamr.pyx
@@ -117,7 +117,7 @@ cdef make_cyamrfield(vfield):
         amrfld = _init_cyamrfield(AMRField_I4_Crd_F8(), vfield, 'f8')
     elif fld_dtype == np.dtype('i8'):
         amrfld = _init_cyamrfield(AMRField_I8_Crd_F8(), vfield, 'f8')
-    if fld_dtype == np.dtype('f4'):
+    elif fld_dtype == np.dtype('f4'):
         amrfld = _init_cyamrfield(AMRField_F4_Crd_F4(), vfield, 'f4')
     elif fld_dtype == np.dtype('f8'):
         amrfld = _init_cyamrfield(AMRField_F8_Crd_F8(), vfield, 'f8')
diff --git a/viscid/cython/cycalc.pyx b/viscid/cython/cycalc.pyx
index 76c2f28..4f9ebb8 100644
--- a/viscid/cython/cycalc.pyx
+++ b/viscid/cython/cycalc.pyx
@@ -257,14 +257,21 @@ cdef inline int closest_preceeding_ind(FusedField fld, int m, int d, real_t valu
     cdef real_t frac
     cdef int i, ind, found_ind
     cdef int n = fld.n[d]
-    cdef int startidx = cached_idx3[d]  # using fld.cached_ind is not threadsafe
+    # using fld.cached_ind is not threadsafe, and the cached index could have
+    # come from some other patch
+    cdef int startidx = int_min(cached_idx3[d], n - 1)
 
     if n == 1:
         ind = 0
     elif fld.uniform_crds:
         frac = (value - fld.xl[m, d]) / (fld.L[m, d])
-        i = <int> floor((fld.nm1[d]) * frac)
-        ind = int_min(int_max(i, 0), fld.nm2[d])
+        if frac >= 1.0:
+            ind = fld.nm2[d]
+        elif frac > 0.0:
+            i = <int> floor((fld.nm1[d]) * frac)
+            ind = int_min(int_max(i, 0), fld.nm2[d])
+        else:
+            ind = 0
     else:
         found_ind = 0
         if fld.crds[m, d, startidx] <= value:
diff --git a/viscid/cython/cyfield.pyx b/viscid/cython/cyfield.pyx
index e8ca83a..b4fd516 100644
--- a/viscid/cython/cyfield.pyx
+++ b/viscid/cython/cyfield.pyx
@@ -49,17 +49,20 @@ cdef _init_cyfield(FusedField fld, vfield, fld_dtype, crd_dtype):
     _crd_lst_nc = [xnc, ync, znc]
     _crd_lst_cc = [xcc, ycc, zcc]
     sshape_max = max(sshape)
-    fld.crds = np.nan * np.ones((3, 3, sshape_max), dtype=crd_dtype)
+    # there's one set of coordinates for each component
+    cdef int nr_crd_sets = max(3, vfield.nr_comps)
+    _crd_lst += [_crd_lst[0]] * (nr_crd_sets - 3)
+    fld.crds = np.nan * np.ones((nr_crd_sets, 3, sshape_max), dtype=crd_dtype)
     sshape_nc_max = max(sshape_nc)
     fld.crds_nc = np.nan * np.ones((3, sshape_nc_max), dtype=crd_dtype)
     sshape_cc_max = max(sshape_cc)
     fld.crds_cc = np.nan * np.ones((3, sshape_cc_max), dtype=crd_dtype)
 
-    fld.xl = np.nan * np.ones((3, 3), dtype=crd_dtype)
-    fld.xh = np.nan * np.ones((3, 3), dtype=crd_dtype)
-    fld.L = np.nan * np.ones((3, 3), dtype=crd_dtype)
+    fld.xl = np.nan * np.ones((nr_crd_sets, 3), dtype=crd_dtype)
+    fld.xh = np.nan * np.ones((nr_crd_sets, 3), dtype=crd_dtype)
+    fld.L = np.nan * np.ones((nr_crd_sets, 3), dtype=crd_dtype)
 
-    for ic in range(3):
+    for ic in range(nr_crd_sets):
         for i in range(3):
             for j in range(sshape[i]):
                 fld.crds[ic, i, j] = _crd_lst[ic][i][j]
@@ -85,7 +88,7 @@ cdef _init_cyfield(FusedField fld, vfield, fld_dtype, crd_dtype):
         fld.nm1[i] = fld.n[i] - 1
         fld.nm2[i] = fld.n[i] - 2
 
-        for ic in range(3):
+        for ic in range(nr_crd_sets):
             fld.xl[ic, i] = fld.crds[ic, i, 0]
             fld.xh[ic, i] = fld.crds[ic, i, int_max(sshape[i] - 1, 0)]
             fld.L[ic, i] = fld.xh[ic, i] - fld.xl[ic, i]
@@ -93,11 +96,11 @@ cdef _init_cyfield(FusedField fld, vfield, fld_dtype, crd_dtype):
         # fld.cached_ind[i] = 0  # dangerous for threads :(
         fld.uniform_crds = vfield.crds._TYPE.startswith("uniform")
         if fld.uniform_crds:
-            fld.dx[i] = (fld.xhnc[i] - fld.xlnc[i]) / fld.nr_nodes[i]
+            fld.dx[i] = (fld.xhnc[i] - fld.xlnc[i]) / int_max(fld.nr_nodes[i] - 1, 1)
         else:
             fld.dx[i] = np.nan
 
-        for ic in range(3):
+        for ic in range(nr_crd_sets):
             if fld.xh[ic, i] < fld.xl[ic, i]:
                 raise RuntimeError("Forward crds only in cython code")
 
@@ -121,7 +124,7 @@ cdef make_cyfield(vfield):
         fld = _init_cyfield(Field_I4_Crd_F8(), vfield, 'i4', 'f8')
     elif fld_dtype == np.dtype('i8'):
         fld = _init_cyfield(Field_I8_Crd_F8(), vfield, 'i8', 'f8')
-    if fld_dtype == np.dtype('f4'):
+    elif fld_dtype == np.dtype('f4'):
         fld = _init_cyfield(Field_F4_Crd_F4(), vfield, 'f4', 'f4')
     elif fld_dtype == np.dtype('f8'):
         fld = _init_cyfield(Field_F8_Crd_F8(), vfield, 'f8', 'f8')
diff --git a/viscid/field.py b/viscid/field.py
index 7effe51..3a23313 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -398,6 +398,8 @@ def wrap_field(data, crds, name="NoName", fldtype="scalar", center='node',
         pass
 
     cls = field_type(fldtype)
+    if kwargs.get("layout", None) in (LAYOUT_FLAT, LAYOUT_INTERLACED):
+        kwargs.setdefault("_src_layout", kwargs["layout"])
     if cls is not None:
         return cls(name, crds, data, center=center, **kwargs)
     else:
@@ -1063,13 +1065,6 @@ class Field(tree.Leaf):
         if dat_shape == sshape:
             return LAYOUT_SCALAR
 
-        # if the number of components is the same as some spatial dimension,
-        # the shape might not tell interlaced from flat
-        if dat_shape[1:] == sshape and dat_shape[:-1] == sshape:
-            src_layout = self.deep_meta.get("src_layout", None)
-            if src_layout in (LAYOUT_FLAT, LAYOUT_INTERLACED):
-                return src_layout
-
         # if the crds shape has more values than the dat.shape
         # then try trimming the directions that have 1 element
         # this can happen when crds are 3d, but field is only 2d
@@ -1081,6 +1076,13 @@ class Field(tree.Leaf):
             except ValueError:
                 break
 
+        # if the number of components is the same as some spatial dimension,
+        # the shape might not tell interlaced from flat
+        if dat_shape[1:] == sshape and dat_shape[:-1] == sshape:
+            src_layout = self.deep_meta.get("src_layout", None)
+            if src_layout in (LAYOUT_FLAT, LAYOUT_INTERLACED):
+                return src_layout
+
         # check which dims match the shape of the crds
         # or if they match when disregarding length 1 axes.
         # This 2nd part happens when calling atleast_3d() on
-- 
2.43.0


From d81162afe1482c87c02186f26a64f5665533582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:19 +0000
Subject: [PATCH 15/54] fix: nearest interpolation far outside of the grid,
 interpolation of fields with a single grid point

---
 viscid/cython/cycalc.pyx |  5 ++++-
 viscid/field.py          | 13 ++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/viscid/cython/cycalc.pyx b/viscid/cython/cycalc.pyx
index 4f9ebb8..3286aca 100644
--- a/viscid/cython/cycalc.pyx
+++ b/viscid/cython/cycalc.pyx
@@ -304,7 +304,10 @@ cdef inline int closest_ind(FusedField fld, int m, int d, real_t value,
     else:
         d1 = fabs(fld.crds[m, d, preceeding_ind] - value)
         d2 = fabs(fld.crds[m, d, preceeding_ind + 1] - value)
-        if d1 <= d2:
+        if value >= fld.crds[m, d, preceeding_ind + 1]:
+            # d1 and d2 round to the same number if value is far away
+            return preceeding_ind + 1
+        elif d1 <= d2:
             return preceeding_ind
         else:
             return preceeding_ind + 1
diff --git a/viscid/field.py b/viscid/field.py
index 3a23313..6d0c77d 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1747,7 +1747,8 @@ class Field(tree.Leaf):
             if self.nr_comps:
                 icomp = 0 if self.nr_comp == 0 else len(new_shape)
                 new_shape.insert(icomp, self.nr_comps)
-            ret = self.wrap(self.data.reshape(new_shape), context=ctx)
+            ret = self.wrap(self.data.reshape(new_shape), context=ctx,
+                            unpack=False)
             if not was_loaded:
                 self.clear_cache()
             return ret
@@ -1854,21 +1855,23 @@ class Field(tree.Leaf):
         # dtype = None is ok, datatype won't change
         return np.array(self.data, dtype=dtype, copy=False)
 
-    def wrap(self, arr, context=None, fldtype=None, npkwargs=None, other=None):
+    def wrap(self, arr, context=None, fldtype=None, npkwargs=None, other=None,
+             unpack=True):
         """ arr is the data to wrap... context is exta deep_meta to pass
         to the constructor. The return is just a number if arr is a
-        1 element ndarray, this is for ufuncs that reduce to a scalar """
+        1 element ndarray and unpack is True, this is for ufuncs that
+        reduce to a scalar """
 
         if self.defer_wrapping and hasattr(other, "wrap"):
             return other.wrap(arr, context=context, fldtype=fldtype,
-                              npkwargs=npkwargs)
+                              npkwargs=npkwargs, unpack=unpack)
 
         if arr is NotImplemented:
             return NotImplemented
         # if just 1 number wrappen in an array, unpack the value and
         # return it... this is more ufuncy behavior
         try:
-            if arr.size == 1:
+            if unpack and arr.size == 1:
                 return np.ravel(arr)[0]
         except AttributeError:
             pass
-- 
2.43.0


From 8418c6e80e7656f014b08aada6455d0610d7480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 16/54] fix: staggered field tools and derivatives of node
 centered fields failed, plasma beta, component views of a single point

---
 viscid/calculator/calc.py   | 34 +++++++++++++++++++---------------
 viscid/calculator/ecfc.py   | 29 +++++++++++------------------
 viscid/calculator/necalc.py | 12 +++++++-----
 viscid/calculator/plasma.py | 10 ++++------
 viscid/field.py             | 10 ++++++++--
 5 files changed, 49 insertions(+), 46 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 879708f..b89894b 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -97,12 +97,17 @@ class Operation(object):
 class UnaryOperation(Operation):
     def __call__(self, a, **kwargs):
         ret = super(UnaryOperation, self).__call__(a, **kwargs)
-        ret.name = "{0} {1}".format(self.short_name, a.name)
+        if isinstance(ret, field.Field):
+            # fields with a single value become plain numbers
+            ret.name = "{0} {1}".format(self.short_name, a.name)
         return ret
 
 class BinaryOperation(Operation):
     def __call__(self, a, b=None, **kwargs):
         ret = super(BinaryOperation, self).__call__(a, b, **kwargs)
+        if not isinstance(ret, field.Field):
+            # fields with a single value become plain numbers
+            return ret
         try:
             ret.name = "{0} {1} {2}".format(a.name, self.short_name, b.name)
         except AttributeError:
@@ -226,7 +231,7 @@ def _grad_np(fld, bnd=True):
         raise NotImplementedError("Can only do cell and node centered gradients")
 
     v = fld.data
-    g = viscid.zeros(fld['x=1:-1, y=1:-1, z=1:-1'].crds, nr_comps=3)
+    gradcrds = fld.crds.slice_keep(np.s_[1:-1, 1:-1, 1:-1], cc=fld.iscentered("Cell"))
 
     xp, xm = crdx[2:,  :,  :], crdx[:-2, :  , :  ]  # pylint: disable=bad-whitespace
     yp, ym = crdy[ :, 2:,  :], crdy[:  , :-2, :  ]  # pylint: disable=bad-whitespace
@@ -236,10 +241,12 @@ def _grad_np(fld, bnd=True):
     vyp, vym = v[1:-1, 2:  , 1:-1], v[1:-1,  :-2, 1:-1]  # pylint: disable=bad-whitespace
     vzp, vzm = v[1:-1, 1:-1, 2:  ], v[1:-1, 1:-1,  :-2]  # pylint: disable=bad-whitespace
 
-    g['x'].data[...] = (vxp - vxm) / (xp - xm)
-    g['y'].data[...] = (vyp - vym) / (yp - ym)
-    g['z'].data[...] = (vzp - vzm) / (zp - zm)
-    return g
+    g_x = (vxp - vxm) / (xp - xm)
+    g_y = (vyp - vym) / (yp - ym)
+    g_z = (vzp - vzm) / (zp - zm)
+    return field.wrap_field([g_x, g_y, g_z], gradcrds,
+                            name="grad " + fld.name, fldtype="Vector",
+                            center=fld.center, time=fld.time, parents=[fld])
 grad.add_implementation("numpy", _grad_np)
 
 def _div_np(fld, bnd=True):
@@ -338,15 +345,12 @@ def convective_deriv(a, b=None, bnd=True):
         a = a['x=1:-1, y=1:-1, z=1:-1']
 
     if b.nr_comps > 1:
-        diBj = [[None, None, None], [None, None, None], [None, None, None]]
-        for j, jcmp in enumerate('xyz'):
-            g = grad(b[jcmp], bnd=False)
-            for i, icmp in enumerate('xyz'):
-                diBj[i][j] = g[icmp]
-        dest = viscid.zeros(a.crds, nr_comps=3)
-        for i, icmp in enumerate('xyz'):
-            for j, jcmp in enumerate('xyz'):
-                dest[jcmp][...] += a[icmp] * diBj[i][j]
+        dest = viscid.zeros(a.crds, nr_comps=3, center=a.center)
+        a_views, dest_views = a.component_views(), dest.component_views()
+        for j, b_j in enumerate(b.component_fields()):
+            grad_bj = grad(b_j, bnd=False)
+            for a_i, di_bj in izip(a_views, grad_bj.component_views()):
+                dest_views[j][...] += a_i * di_bj
     else:
         dest = dot(a, grad(b, bnd=False))
     return dest
diff --git a/viscid/calculator/ecfc.py b/viscid/calculator/ecfc.py
index b199212..61f8cda 100644
--- a/viscid/calculator/ecfc.py
+++ b/viscid/calculator/ecfc.py
@@ -98,19 +98,20 @@ def make_ecfc_field_leading(fc, trim_leading=True):
         staggering = fc.find_info(STAGGER_KEY, [STAGGER_LEADING] * 3)
         flipping = fc.find_info(FLIP_KEY, [False] * 3)
 
-        for i, n in enumerate(fc.sshape):
-            if staggering[i] == STAGGER_TRAILING:
+        # i goes over vector components, and j goes over dimensions
+        for j, n in enumerate(fc.sshape):
+            if staggering[j] == STAGGER_TRAILING:
                 _sd0, _sd = _sd0T, _sdT
             else:
                 _sd0, _sd = _sd0L, _sdL
 
             if n == 1:
-                sc[i] = slice(None, None)
-                for j in range(3):
+                sc[j] = slice(None, None)
+                for i in range(3):
                     sd[i][j] = slice(None, None)
             elif n > 1:
-                sc[i] = slice(1, None)
-                for j in range(3):
+                sc[j] = slice(1, None)
+                for i in range(3):
                     cnd = i == j if center == 'face' else i != j
                     S = SB if flipping[j] and cnd else SA
                     if cnd:
@@ -121,9 +122,7 @@ def make_ecfc_field_leading(fc, trim_leading=True):
                 raise RuntimeError("I shouldn't be here")
 
         fc.resolve()  # if translating -> gse, do it once, not 4 times
-        s0vec = list(sc)
-        s0vec.insert(fc.nr_comp, slice(None))
-        prepared_fc = viscid.zeros_like(fc[s0vec])
+        prepared_fc = viscid.zeros_like(fc[tuple(sc)])
 
         prepared_fc['x'] = fc['x', sd[0][0], sd[0][1], sd[0][2]]
         prepared_fc['y'] = fc['y', sd[1][0], sd[1][1], sd[1][2]]
@@ -141,9 +140,7 @@ def fc2cc(fc, force_numpy=False, bnd=True):
     fc = make_ecfc_field_leading(fc)
     s0, sm, sp = _prep_slices(fc)
 
-    s0vec = list(s0)
-    s0vec.insert(fc.nr_comp, slice(None))
-    cc = viscid.zeros_like(fc[s0vec])
+    cc = viscid.zeros_like(fc[tuple(s0)])
     cc.center = "Cell"
 
     fcx0, fcx1 = (fc['x', sm[0], s0[1], s0[2]].data,
@@ -181,9 +178,7 @@ def ec2cc(ec, force_numpy=False, bnd=True):
     ec = make_ecfc_field_leading(ec)
     s0, sm, sp = _prep_slices(ec)
 
-    s0vec = list(s0)
-    s0vec.insert(ec.nr_comp, slice(None))
-    cc = viscid.zeros_like(ec[s0vec])
+    cc = viscid.zeros_like(ec[tuple(s0)])
     cc.center = "Cell"
 
     ecx0, ecx1, ecx2, ecx3 = (ec['x', s0[0], sm[1], sm[2]].data,
@@ -230,9 +225,7 @@ def div_fc(fc, force_numpy=False, bnd=True):
     #        just faking it with a 0 order hold before returning
     s0, sm, sp = _prep_slices(fc)
 
-    s0vec = list(s0)
-    s0vec.insert(fc.nr_comp, slice(0, 1))
-    div_cc = viscid.zeros_like(fc[s0vec], center="cell")
+    div_cc = viscid.zeros_like(fc['x', s0[0], s0[1], s0[2]], center="cell")
 
     x, y, z = fc.get_crds_nc('xyz', shaped=True)
     if True:
diff --git a/viscid/calculator/necalc.py b/viscid/calculator/necalc.py
index e558be3..661d458 100644
--- a/viscid/calculator/necalc.py
+++ b/viscid/calculator/necalc.py
@@ -160,7 +160,7 @@ def grad(fld, bnd=True):
         raise NotImplementedError("Can only do cell and node centered gradients")
 
     v = fld.data
-    g = viscid.zeros(fld['x=1:-1, y=1:-1, z=1:-1'].crds, nr_comps=3)
+    gradcrds = fld.crds.slice_keep(np.s_[1:-1, 1:-1, 1:-1], cc=fld.iscentered("Cell"))
 
     xp, xm = crdx[2:,  :,  :], crdx[:-2, :  , :  ]  # pylint: disable=bad-whitespace
     yp, ym = crdy[ :, 2:,  :], crdy[:  , :-2, :  ]  # pylint: disable=bad-whitespace
@@ -170,10 +170,12 @@ def grad(fld, bnd=True):
     vyp, vym = v[1:-1, 2:  , 1:-1], v[1:-1,  :-2, 1:-1]  # pylint: disable=bad-whitespace
     vzp, vzm = v[1:-1, 1:-1, 2:  ], v[1:-1, 1:-1,  :-2]  # pylint: disable=bad-whitespace
 
-    g['x'].data[...] = ne.evaluate("(vxp-vxm)/(xp-xm)")
-    g['y'].data[...] = ne.evaluate("(vyp-vym)/(yp-ym)")
-    g['z'].data[...] = ne.evaluate("(vzp-vzm)/(zp-zm)")
-    return g
+    g_x = ne.evaluate("(vxp-vxm)/(xp-xm)")
+    g_y = ne.evaluate("(vyp-vym)/(yp-ym)")
+    g_z = ne.evaluate("(vzp-vzm)/(zp-zm)")
+    return field.wrap_field([g_x, g_y, g_z], gradcrds,
+                            name="grad " + fld.name, fldtype="Vector",
+                            center=fld.center, time=fld.time, parents=[fld])
 
 def div(fld, bnd=True):
     """2nd order centeral diff, 1st order @ boundaries if bnd"""
diff --git a/viscid/calculator/plasma.py b/viscid/calculator/plasma.py
index d917ccd..1d12e84 100644
--- a/viscid/calculator/plasma.py
+++ b/viscid/calculator/plasma.py
@@ -50,8 +50,7 @@ def calc_psi(B, rev=False):
             if nxi <= 2:
                 slcs[i] = 0
                 reduced_axes.append(B.crds.axes[i])
-        slcs.insert(B.nr_comp, slice(None))
-        B = B[slcs]
+        B = B[tuple(slcs)]
 
     # ok, so the above didn't work... just nip out the smallest dim?
     if B.nr_sdims == 3:
@@ -62,8 +61,7 @@ def calc_psi(B, rev=False):
         logger.warning("Tried to get the flux function of a 3D field. "
                        "I can't do that, so I'm\njust ignoring the {0} "
                        "dimension".format(reduced_axes[-1]))
-        slcs.insert(B.nr_comp, slice(None))
-        B = B[slcs]
+        B = B[tuple(slcs)]
 
     if B.nr_sdims != 2:
         raise ValueError("flux function only implemented for 2D fields")
@@ -130,10 +128,10 @@ def calc_beta(pp, B, scale=1.0):
     if _HAS_NUMEXPR:
         ldict = dict(scale=scale, bx=bx, by=by, bz=bz,
                      pp=pp, two=two)
-        result = ne.evaluate("scale * two * pp / sqrt(bx**2 + by**2 + bz**2)",
+        result = ne.evaluate("scale * two * pp / (bx**2 + by**2 + bz**2)",
                              local_dict=ldict)
     else:
-        result = scale * two * pp / np.sqrt(bx**2 + by**2 + bz**2)
+        result = scale * two * pp / (bx**2 + by**2 + bz**2)
     context = dict(name="beta", pretty_name=r"$\beta_{pl}$")
     return pp.wrap(result, context=context)
 
diff --git a/viscid/field.py b/viscid/field.py
index 6d0c77d..18ed097 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -2385,8 +2385,14 @@ class VectorField(Field):
     def component_views(self):
         """ return numpy views to components individually, memory layout
         of the original field is maintained """
-        flds = self.component_fields()
-        return [f.data for f in flds]
+        if (self._cache is None and
+            self.layout == LAYOUT_FLAT and
+            isinstance(self._src_data, (list, tuple)) and
+            all([isinstance(f, Field) for f in self._src_data])):
+            # if all elements are fields
+            return [f.data for f in self._src_data]
+        comps_first = np.moveaxis(self.data, self.nr_comp, 0)
+        return [comps_first[i] for i in range(self.nr_comps)]
 
     def component_fields(self):
         if (self._cache is None and
-- 
2.43.0


From 607d589eb5fc32029e038f9af3bd34211c744e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 17/54] fix: streamline lengths and times with adaptive steps,
 calc_streamlines unusable after a failed call

---
 viscid/cython/integrate.pyx  |  2 ++
 viscid/cython/streamline.pyx | 25 +++++++++++++++----------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/viscid/cython/integrate.pyx b/viscid/cython/integrate.pyx
index c2ad7f0..4b7662b 100644
--- a/viscid/cython/integrate.pyx
+++ b/viscid/cython/integrate.pyx
@@ -276,6 +276,8 @@ cdef inline int _ts_ctrl(real_t *ds, real_t error_estimate, real_t max_error,
             ds[0] = 0.9 * deref(ds) * (err_ratio ** -0.2)
             if fabs(ds[0]) >= largest_ds:
                 ds[0] = ds_sign * largest_ds
+            elif fabs(ds[0]) <= smallest_ds:
+                ds[0] = ds_sign * smallest_ds
             repeat = 0
 
     # if isnan(ds[0]) or ds[0] == 0.0:
diff --git a/viscid/cython/streamline.pyx b/viscid/cython/streamline.pyx
index e3fb67a..9fe3089 100644
--- a/viscid/cython/streamline.pyx
+++ b/viscid/cython/streamline.pyx
@@ -35,7 +35,7 @@ from viscid.compat import izip
 ###########
 # cimports
 cimport cython
-from libc.math cimport fabs, NAN
+from libc.math cimport fabs, sqrt, NAN
 from libc.time cimport time_t, time, clock_t, clock, CLOCKS_PER_SEC
 cimport numpy as cnp
 
@@ -264,10 +264,12 @@ def calc_streamlines(vfield, seed, nr_procs=1, force_subprocess=False,
         raise RuntimeError("Another process is doing streamlines in this "
                            "global memory space")
     _global_fld = fld
-    grid_iter = izip(chunk_sizes, repeat(seed), seed_slices)
-    r = parallel.map(nr_procs, _do_streamline_star, grid_iter, args_kw=kwargs,
-                     threads=threads, force_subprocess=force_subprocess)
-    _global_fld = None
+    try:
+        grid_iter = izip(chunk_sizes, repeat(seed), seed_slices)
+        r = parallel.map(nr_procs, _do_streamline_star, grid_iter, args_kw=kwargs,
+                         threads=threads, force_subprocess=force_subprocess)
+    finally:
+        _global_fld = None
 
     # rearrange the output to be the exact same as if we just called
     # _py_streamline straight up (like for nr_procs == 1)
@@ -381,6 +383,7 @@ def _py_streamline(FusedAMRField amrfld, FusedField active_patch,
         real_t stream_length
         real_t stream_t
         int d  # direction of streamline 1 | -1
+        int is_adaptive = method in (EULER1A, RK12, RK45)
         real_t abs_ds, pre_ds
         real_t ds
         real_t abs_dt
@@ -558,17 +561,19 @@ def _py_streamline(FusedAMRField amrfld, FusedField active_patch,
                     s0[1] = s[1]
                     s0[2] = s[2]
 
+                    dt = 0.0
                     ret = integrate_func(patch, s, &ds, dt_ptr,
                                          max_error, smallest_ds, largest_ds,
                                          vscale, cached_idx3)
 
-                    if fabs(ds) >= pre_ds:
-                        abs_ds = pre_ds
+                    if is_adaptive:
+                        # here, ds is now the size of the next step
+                        abs_ds = sqrt((s[0] - s0[0])**2 + (s[1] - s0[1])**2 +
+                                      (s[2] - s0[2])**2)
                     else:
-                        abs_ds = fabs(ds)
+                        abs_ds = pre_ds
 
-                    if max_t > 0.0:
-                        abs_dt = fabs(dt)
+                    abs_dt = fabs(dt)
 
                     # have we gone too far in space / time? Note that we do
                     # not re-adjust dt/ds so so that classify_endpoints will
-- 
2.43.0


From 36f4e806cd3890634c471e93234b96d2ba881f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 18/54] fix: chunks of a given size, map with a given pool,
 non-daemonic pools, streamlines without seeds

---
 viscid/cython/streamline.pyx |  6 +++++-
 viscid/parallel.py           | 18 ++++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/viscid/cython/streamline.pyx b/viscid/cython/streamline.pyx
index 9fe3089..68df229 100644
--- a/viscid/cython/streamline.pyx
+++ b/viscid/cython/streamline.pyx
@@ -500,7 +500,11 @@ def _py_streamline(FusedAMRField amrfld, FusedField active_patch,
     # t0_all = time()
 
     seed_iter = islice(seed.iter_points(center=seed_center), *seed_slice)
-    seed_pts = np.array(list(seed_iter), dtype=amrfld.crd_dtype)
+    seed_lst = list(seed_iter)
+    if seed_lst:
+        seed_pts = np.array(seed_lst, dtype=amrfld.crd_dtype)
+    else:
+        seed_pts = np.empty((0, 3), dtype=amrfld.crd_dtype)
 
     assert seed_pts.shape[1] == 3, "Seeds must have 3 spatial dimensions"
 
diff --git a/viscid/parallel.py b/viscid/parallel.py
index 0d146cd..b5b2a06 100644
--- a/viscid/parallel.py
+++ b/viscid/parallel.py
@@ -34,7 +34,11 @@ class NoDaemonPool(multiprocessing.pool.Pool):  # pylint: disable=W0223
     """ I am vulnerable to armies of undead worker processes, chances
     are you don't actually want to use me
     """
-    Process = NoDaemonProcess
+    @staticmethod
+    def Process(*args, **kwargs):
+        # depending on the version of Python, args is either empty or a
+        # multiprocessing context
+        return NoDaemonProcess(**kwargs)
 
 
 class _MapThread(threading.Thread):
@@ -80,7 +84,7 @@ def chunk_list(seq, nchunks, size=None):
     nel = len(seq)
 
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = max(1, int(ceil(nel / size)))
 
     ret = chunk_slices(nel, nchunks)
     for i in range(nchunks):
@@ -111,7 +115,7 @@ def chunk_slices(nel, nchunks, size=None):
         True
     """
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = max(1, int(ceil(nel / size)))
 
     nlong = nel % nchunks  # nshort guarenteed < nchunks
     lenshort = nel // nchunks
@@ -169,7 +173,7 @@ def chunk_sizes(nel, nchunks, size=None):
         True
     """
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = max(1, int(ceil(nel / size)))
 
     nlong = nel % nchunks  # nshort guarenteed < nchunks
     lenshort = nel // nchunks
@@ -222,8 +226,10 @@ def map(nr_procs, func, args_iter, args_kw=None, timeout=1e8,
                          daemonic=daemonic, threads=threads, pool=pool)
         ret = r.get(int(timeout))
         # in principle this join should return almost immediately since
-        # we already called r.get
-        p.join()
+        # we already called r.get; a given pool is not closed, so it can't
+        # be joined
+        if pool is None:
+            p.join()
 
     return ret
 
-- 
2.43.0


From 1352d04ea8d11443de3c68dae7311dc81d064df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 19/54] fix: null cells missed or invented, jacobian_at_ind on
 the boundary

- one corner of the two xy faces was taken from the wrong grid point
- roots on a face where one component does not depend on y were lost
- non-contiguous, integer and mixed precision fields were rejected
- jacobian_at_ind read past the end of the field
---
 viscid/calculator/calc.py    | 13 ++++++++----
 viscid/cython/null_tools.pyx | 40 +++++++++++++++++++++++++++---------
 2 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index b89894b..5052885 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -587,12 +587,17 @@ def jacobian_at_ind(B, ix, iy, iz):
     """
     bx, by, bz = B.component_views()
     x, y, z = B.get_crds("xyz")
-    gradb = np.empty((3, 3), dtype=B.dtype)
+    # central differences, or one-sided ones on the boundaries
+    ix, iy, iz = [int(i) % len(crd) for i, crd in zip((ix, iy, iz), (x, y, z))]
+    ix0, iy0, iz0 = [max(i - 1, 0) for i in (ix, iy, iz)]
+    ix1, iy1, iz1 = [min(i + 1, len(crd) - 1)
+                     for i, crd in zip((ix, iy, iz), (x, y, z))]
+    gradb = np.empty((3, 3), dtype=np.result_type(B.dtype, "f4"))
     for i, bi in enumerate([bx, by, bz]):
         # d_x Bi, d_y Bi, d_z Bi
-        gradb[i, 0] = (bi[ix + 1, iy, iz] - bi[ix - 1, iy, iz]) / (x[ix + 1] - x[ix - 1])
-        gradb[i, 1] = (bi[ix, iy + 1, iz] - bi[ix, iy - 1, iz]) / (y[iy + 1] - y[iy - 1])
-        gradb[i, 2] = (bi[ix, iy, iz + 1] - bi[ix, iy, iz - 1]) / (z[iz + 1] - z[iz - 1])
+        gradb[i, 0] = (bi[ix1, iy, iz] - bi[ix0, iy, iz]) / (x[ix1] - x[ix0])
+        gradb[i, 1] = (bi[ix, iy1, iz] - bi[ix, iy0, iz]) / (y[iy1] - y[iy0])
+        gradb[i, 2] = (bi[ix, iy, iz1] - bi[ix, iy, iz0]) / (z[iz1] - z[iz0])
     return gradb
 
 def jacobian_eig_at_point(B, x, y, z, dx=None, dy=None, dz=None):
diff --git a/viscid/cython/null_tools.pyx b/viscid/cython/null_tools.pyx
index cd52548..a02daf5 100644
--- a/viscid/cython/null_tools.pyx
+++ b/viscid/cython/null_tools.pyx
@@ -6,6 +6,7 @@ from itertools import count
 import numpy as np
 import viscid
 
+from libc.math cimport fabs
 cimport cython
 cimport numpy as cnp
 
@@ -44,6 +45,8 @@ def find_nulls(fld, ibound=0.0):
         tuple: (null_inds, null_pts) both of which are 3xN ndarrays,
             the first is integers, the second floats
     """
+    assert fld.nr_sdims == 3
+    assert fld.nr_comps == 3
     fld = fld.as_interlaced()
     candidate_inds = _reduce_candidates(fld, ibound=ibound)
     null_inds, null_pts = _find_null_cells_from_candidates(fld, candidate_inds)
@@ -98,13 +101,20 @@ def _classify_nulls(b, null_inds, rtol=1e-5, atol=1e-8):
             np.array(A_type, dtype='i'),
             np.array(B_type, dtype='i'))
 
+def _as_c_array(fld):
+    """data of an interlaced field as the kernels need it"""
+    dat = np.asarray(fld.as_interlaced().data)
+    if dat.dtype not in (np.dtype('f4'), np.dtype('f8')):
+        dat = dat.astype('f8')
+    return np.ascontiguousarray(dat)
+
 @cython.wraparound(True)
 def _reduce_candidates(fld, ibound=0.0):
     # these crds are same centering as fld
-    dat = fld.as_interlaced().data
-    x, y, z = fld.get_crds("xyz")
+    dat = _as_c_array(fld)
+    x, y, z = [crd.astype(dat.dtype) for crd in fld.get_crds()]
     candidate_inds = _py_reduce_candidates(dat, x, y, z, ibound)
-    return np.array(candidate_inds)
+    return np.array(candidate_inds, dtype=np.dtype('long'))
 
 def _find_null_cells_from_candidates(fld, inds):
     assert fld.nr_sdims == 3
@@ -112,8 +122,9 @@ def _find_null_cells_from_candidates(fld, inds):
     # izs = np.array(izs, dtype='int32', copy=False)
     # iys = np.array(iys, dtype='int32', copy=False)
     # ixs = np.array(ixs, dtype='int32', copy=False)
-    dat = fld.as_interlaced().data
-    null_inds = np.array(_py_find_null_cells_from_candidates(dat, inds))
+    dat = _as_c_array(fld)
+    null_inds = np.array(_py_find_null_cells_from_candidates(dat, inds),
+                         dtype=np.dtype('long'))
     x, y, z = fld.get_crds()
     null_pts = np.zeros_like(null_inds).astype(dat.dtype)
     null_pts[0, :] = x[null_inds[0, :]]
@@ -208,7 +219,7 @@ def _py_find_null_cells_from_candidates(real_t[:, :, :, ::1] f,
     cdef int* ozc = [0, 1, 1, 1, 0, 0]
 
     cdef int* oxd = [1, 1, 0, 1, 1, 1]
-    cdef int* oyd = [0, 0, 1, 1, 0, 1]
+    cdef int* oyd = [1, 1, 1, 1, 0, 1]
     cdef int* ozd = [0, 1, 1, 1, 1, 1]
     cdef int[:, ::1] permuted_comps = np.array([[0, 1, 2], [1, 2, 0], [2, 0, 1]],
                                                dtype="int32")
@@ -299,6 +310,7 @@ cdef inline find_roots_face(real_t a1, real_t b1, real_t c1, real_t d1,
     # as f1(x, ?) = f2(x, ?) = 0, so solve that, then
     # substitute back into f1(xi, yi) = 0 to find yi
     cdef real_t a, b, c
+    cdef real_t scale1, scale2
     a = b1 * d2 - d1 * b2
     b = (a1 * d2 - d1 * a2) + (b1 * c2 - c1 * b2)
     c = a1 * c2 - c1 * a2
@@ -314,9 +326,9 @@ cdef inline find_roots_face(real_t a1, real_t b1, real_t c1, real_t d1,
         desc = b**2 - (4.0 * a * c)
         if desc > 0.0:
             # il y a deux solutions
-            rootx1 = (-b + np.sqrt(desc)) / (2.0 * a)
-            rootx2 = (-b - np.sqrt(desc)) / (2.0 * a)
-            roots_x = np.array([rootx1, rootx2])
+            # written such that nothing is lost to round off if a is tiny
+            q = -0.5 * (b + np.copysign(np.sqrt(desc), b))
+            roots_x = np.array([q / a, c / q])
             # print("::", roots_x)
         elif desc == 0.0:
             # il y a seulment une solution
@@ -326,7 +338,15 @@ cdef inline find_roots_face(real_t a1, real_t b1, real_t c1, real_t d1,
             roots_x = np.array([])
             # print("::", roots_x)
 
-    roots_y = - (a1 + b1 * roots_x) / (c1 + d1 * roots_x)
+    # substitute back into whichever equation depends more on y
+    denom1 = c1 + d1 * roots_x
+    denom2 = c2 + d2 * roots_x
+    scale1 = fabs(a1) + fabs(b1) + fabs(c1) + fabs(d1)
+    scale2 = fabs(a2) + fabs(b2) + fabs(c2) + fabs(d2)
+    use1 = np.abs(denom1) * scale2 >= np.abs(denom2) * scale1
+    with np.errstate(divide='ignore', invalid='ignore'):
+        roots_y = - (np.where(use1, a1 + b1 * roots_x, a2 + b2 * roots_x) /
+                     np.where(use1, denom1, denom2))
 
     # remove roots that are outside the box
     keep = ((roots_x >= 0.0) & (roots_x <= 1.0) &
-- 
2.43.0


From 2a62ceff635cdd2d224bdef50c4f3b1b1ba41e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 20/54] fix: patches of small or far away grids, patch slices
 on the upper boundary, reductions over patches

---
 viscid/amr_field.py     | 11 ++++++++---
 viscid/amr_grid.py      |  8 ++++----
 viscid/cython/cyamr.pyx | 14 ++++++++------
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 511c0fc..2613043 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -145,9 +145,10 @@ class AMRField(object):
             invalid_err_level = np.geterr()['invalid']
             np.seterr(invalid='ignore')
             atol = 100 * np.finfo(xl_nc.dtype).eps
+            atol *= np.maximum(np.abs(fld.crds.xl_nc), np.abs(fld.crds.xh_nc))
             if (not np.any(np.logical_or(xl_nc - atol > extent[1],
-                                         xh_nc <= extent[0]))):
-                if np.any(np.isclose(fld.crds.xh_nc, extent[0], atol=atol)):
+                                         xh_nc + atol < extent[0]))):
+                if np.any(np.abs(xh_nc - extent[0]) <= atol):
                     maybe.append(i)
                 else:
                     inds.append(i)
@@ -299,7 +300,11 @@ class AMRField(object):
 
         if np.asarray(lst[0]).size == 1:
             # operation reduced to scalar
-            arr = np.array(lst)
+            if attrname in ('mean', 'std', 'ptp'):
+                # these do not follow from the values of each patch
+                arr = np.concatenate([np.ravel(p.data) for p in self.patches])
+            else:
+                arr = np.array(lst)
             return getattr(arr, attrname)(**kwargs)
         else:
             return AMRField(lst, self.skeleton)
diff --git a/viscid/amr_grid.py b/viscid/amr_grid.py
index d47079c..7d0d876 100644
--- a/viscid/amr_grid.py
+++ b/viscid/amr_grid.py
@@ -135,11 +135,11 @@ class AMRSkeleton(object):
         for my_patch, grid in zip(self.patches, dset):
             if np.any(my_patch.n != grid.crds.shape_cc):
                 return False
-            if not np.allclose(my_patch.xl, grid.crds.xl_nc):
+            atol = 1e-5 * np.abs(my_patch.L)
+            if not np.allclose(my_patch.xl, grid.crds.xl_nc, rtol=0, atol=atol):
+                return False
+            if not np.allclose(my_patch.xh, grid.crds.xh_nc, rtol=0, atol=atol):
                 return False
-            # if n and xl match... do i need to check xh?
-            # if not np.allclose(my_patch.xh, grid.crds.xh_nc):
-            #     return False
         # t1 = default_timer()
         # print(">> compatable   {0:g} secs".format(t1 - t0))
         return True
diff --git a/viscid/cython/cyamr.pyx b/viscid/cython/cyamr.pyx
index 2649929..ef4b6b8 100644
--- a/viscid/cython/cyamr.pyx
+++ b/viscid/cython/cyamr.pyx
@@ -17,8 +17,6 @@ from viscid.cython.cyamr cimport *
 from viscid.cython.cyfield cimport MAX_FLOAT, real_t
 from viscid.cython.cyfield cimport CyField, FusedField, make_cyfield
 from viscid.cython.misc_inlines cimport real_min, real_max
-from viscid.cython.misc_inlines cimport isclose, less_close
-from viscid.cython.misc_inlines cimport less_not_close, greater_not_close
 
 def discover_neighbors(skel):
     """Find which patches touch
@@ -84,14 +82,15 @@ def _py_discover_neighbors(skel, real_t[:, ::1] xm, real_t[:, ::1] L,
                 r[k] = xm[i, k] - xm[j, k]
                 r_abs[k] = fabs(r[k])
                 d[k] = 0.5 * (L[i, k] + L[j, k])
-                if not less_close(r_abs[k], d[k]):
+                # tolerance is relative to the size of the patches
+                if r_abs[k] - d[k] > 1e-5 * d[k]:
                     possible_neighbor = 0
                     break
 
             # check if the two patches actually touch
             if possible_neighbor:
                 for k in range(3):
-                    if isclose(r_abs[k] - d[k], 0.0):
+                    if fabs(r_abs[k] - d[k]) <= 1e-5 * d[k]:
                         if r[k] >= 0:
                             f_flag, i_flag = 1, 2
                         else:
@@ -169,9 +168,12 @@ cdef _init_cyamrfield(FusedAMRField amrfld, vfield, crd_dtype):
 
 cdef inline int _contains_patch(FusedAMRField amrfld, int ipatch, real_t x[3]):
     cdef int i
+    cdef real_t tol
     for i in range(3):
-        if (less_not_close(x[i], amrfld.xl[ipatch, i]) or
-            greater_not_close(x[i], amrfld.xh[ipatch, i])):
+        # tolerance is relative to the size of the patch
+        tol = 1e-5 * (amrfld.xh[ipatch, i] - amrfld.xl[ipatch, i])
+        if (x[i] < amrfld.xl[ipatch, i] - tol or
+            x[i] > amrfld.xh[ipatch, i] + tol):
             return 0
     return 1
 
-- 
2.43.0


From 458f8e1524c18fbb1da6d57c601d70d0229bebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 21/54] fix: derivatives at a point, integrals of magnitudes
 along lines, resampled lines, flux functions of integer and transposed fields

---
 viscid/calculator/calc.py   | 60 ++++++++++++++++++-------------------
 viscid/calculator/plasma.py |  8 ++++-
 2 files changed, 37 insertions(+), 31 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 5052885..11a6b41 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -16,12 +16,6 @@ from viscid import verror
 from viscid import seed
 from viscid.compat import izip, OrderedDict
 
-try:
-    from viscid.calculator import cycalc
-    has_cython = True
-except ImportError:
-    has_cython = False
-
 try:
     from viscid.calculator import necalc
     has_numexpr = True
@@ -397,10 +391,15 @@ def resample_lines(lines, factor=1, kind="linear"):
     elif factor == 1:
         return lines
 
-    for i, line in enumerate(lines):
+    newlines = []
+    for line in lines:
         nr_sdims, nold = line.shape
-        nnew = np.ceil(factor * (nold - 1)) + 1
-        newline = np.empty((nr_sdims, nnew), dtype=line.dtype)
+        if nold < 2:
+            newlines.append(line)
+            continue
+        nnew = int(np.ceil(factor * (nold - 1))) + 1
+        newline = np.empty((nr_sdims, nnew),
+                           dtype=np.result_type(line.dtype, "f4"))
         sold = np.linspace(0, 1, nold)
         snew = np.linspace(0, 1, nnew)
 
@@ -416,8 +415,8 @@ def resample_lines(lines, factor=1, kind="linear"):
                 raise
             for j in range(nr_sdims):
                 newline[j, :] = np.interp(snew, sold, line[j, :])
-        lines[i] = newline
-    return lines
+        newlines.append(newline)
+    return newlines
 
 def project_along_line(line, fld, interp_kind='trilin'):
     """Project a Vector Field Parallel to a streamline
@@ -428,12 +427,13 @@ def project_along_line(line, fld, interp_kind='trilin'):
             line
         interp_kind (str): which interpolation to use, const or trilin
     """
-    fld_on_verts = viscid.interp(fld, line, kind=interp_kind)
+    fld_on_verts = viscid.interp(fld, line, kind=interp_kind, wrap=False)
     # FIXME: here in lies a bug, which axis am I actually summing over?
     #        maybe that's not the bug, but there must be something wrong
     #        here as indicated by kris_scripts/work/iono_xi_mismatch/analytic_pot.py
     dsvec = line[:, 2:] - line[:, :-2]
-    dsvec = np.concatenate([dsvec[:, 0:1], dsvec, dsvec[:, -2:-1]], axis=1)
+    dsvec = np.concatenate([line[:, 1:2] - line[:, 0:1], dsvec,
+                            line[:, -1:] - line[:, -2:-1]], axis=1)
     dsvec = dsvec / np.linalg.norm(dsvec, axis=0)
     return np.sum(fld_on_verts * dsvec.T, axis=1)
 
@@ -471,11 +471,13 @@ def integrate_along_lines(lines, fld, reduction="dot", mask_func=None,
     Returns:
         ndarray with shape (len(lines), )
     """
-    arr = np.zeros((len(lines),), dtype=fld.dtype)
+    arr = np.zeros((len(lines),), dtype=np.result_type(fld.dtype, "f4"))
+    if len(lines) == 0:
+        return arr
 
     cum_n = np.cumsum([0] + [line.shape[1] for line in lines])
     all_verts = np.concatenate(lines, axis=1)
-    fld_on_verts = viscid.interp(fld, all_verts, kind=interp_kind).data
+    fld_on_verts = viscid.interp(fld, all_verts, kind=interp_kind, wrap=False)
 
     for i, start, stop in izip(count(), cum_n[:-1], cum_n[1:]):
         ds = np.linalg.norm(lines[i][:, 1:] - lines[i][:, :-1], axis=0)
@@ -484,7 +486,8 @@ def integrate_along_lines(lines, fld, reduction="dot", mask_func=None,
             reduction = reduction.strip().lower()
             if reduction == "dot":
                 dsvec = lines[i][:, 1:] - lines[i][:, :-1]
-                dsvec = dsvec / np.linalg.norm(dsvec, axis=0)
+                # segments of length 0 don't have a direction
+                dsvec = dsvec / np.where(ds > 0.0, ds, 1.0)
                 values = 0.5 * (fld_on_verts[start:stop - 1, :] +
                                 fld_on_verts[start + 1:stop, :])
                 values = values * dsvec.T
@@ -493,7 +496,7 @@ def integrate_along_lines(lines, fld, reduction="dot", mask_func=None,
                 values = np.sum(values, axis=1)
             elif reduction in ["mag", "magnitude", "norm"]:
                 mag = np.linalg.norm(fld_on_verts[start:stop], axis=1)
-                values = 0.5 * (mag[start:stop - 1] + mag[start + 1:stop])
+                values = 0.5 * (mag[:-1] + mag[1:])
             else:
                 raise ValueError("Unknown reduction: {0}".format(reduction))
         else:
@@ -527,24 +530,21 @@ def local_vector_points(B, x, y, z, dx=None, dy=None, dz=None):
           points of the bs, but this time, 0-3 -> x,y,z
         * dcrd (list): [dx, dy, dz]
     """
-    assert has_cython  # if a problem, you need to build Viscid
-    assert B.iscentered("Cell")
-
-    x, y, z = [np.array(c).reshape(1, 1) for c in [x, y, z]]
+    x, y, z = [np.array(c, dtype="f8").reshape(1, 1) for c in [x, y, z]]
     crds = B.get_crds("xyz")
     inds = [0] * len(crds)
     dcrd = [0] * len(crds)
     # This makes points in xyz order
     pts = np.tile([x, y, z], 6).reshape(3, -1).T
     for i, crd, loc, d in zip(count(), crds, [x, y, z], [dx, dy, dz]):
-        inds[i] = cycalc.closest_ind(crd, loc)
+        inds[i] = min(np.argmin(np.abs(crd - loc)), max(len(crd) - 2, 0))
         if d is None:
-            dcrd[i] = crd[inds[i] + 1] - crd[inds[i]]
+            dcrd[i] = crd[inds[i] + 1] - crd[inds[i]] if len(crd) > 1 else 1.0
         else:
             dcrd[i] = d
         pts[2 * i + 1, i] += dcrd[i]
         pts[2 * i + 0, i] -= dcrd[i]
-    bs = cycalc.interp_trilin(B, seed.Point(pts))
+    bs = viscid.interp_trilin(B, seed.Point(pts.T), wrap=False)
     # viscid.interact(banner="in local_vector_points")
     return bs, pts, dcrd
 
@@ -563,7 +563,7 @@ def jacobian_at_point(B, x, y, z, dx=None, dy=None, dz=None):
             [d_x Bz, d_y Bz, d_z Bz] ]
     """
     bs, _, dcrd = local_vector_points(B, x, y, z, dx, dy, dz)
-    gradb = np.empty((3, 3), dtype=B.dtype)
+    gradb = np.empty((3, 3), dtype=np.result_type(B.dtype, "f4"))
 
     # bs is in xyz spatial order, but components are in xyz order
     # dcrd is in xyz order
@@ -635,15 +635,15 @@ def div_at_point(A, x, y, z, dx=None, dy=None, dz=None):
 def curl_at_point(A, x, y, z, dx=None, dy=None, dz=None):
     """Returns curl at point as ndarray with shape (3,) xyz"""
     As, _, dcrd = local_vector_points(A, x, y, z, dx, dy, dz)
-    c = np.zeros(3, dtype=A.dtype)
+    c = np.zeros(3, dtype=np.result_type(A.dtype, "f4"))
 
     # this is confusing: In As, first index is xyz, 2nd index is xyz
     #             xi+dxi  comp      xi-dxi   comp /   (2 * dxi)
     c[0] = ((As[2 * 1 + 1, 2] - As[2 * 1 + 0, 2]) / (2.0 * dcrd[1]) -
-            (As[2 * 0 + 1, 1] - As[2 * 0 + 0, 1]) / (2.0 * dcrd[2]))
-    c[1] = ((As[2 * 0 + 1, 0] - As[2 * 0 + 0, 0]) / (2.0 * dcrd[2]) -
-            (As[2 * 2 + 1, 2] - As[2 * 2 + 0, 2]) / (2.0 * dcrd[0]))
-    c[2] = ((As[2 * 2 + 1, 1] - As[2 * 2 + 0, 1]) / (2.0 * dcrd[0]) -
+            (As[2 * 2 + 1, 1] - As[2 * 2 + 0, 1]) / (2.0 * dcrd[2]))
+    c[1] = ((As[2 * 2 + 1, 0] - As[2 * 2 + 0, 0]) / (2.0 * dcrd[2]) -
+            (As[2 * 0 + 1, 2] - As[2 * 0 + 0, 2]) / (2.0 * dcrd[0]))
+    c[2] = ((As[2 * 0 + 1, 1] - As[2 * 0 + 0, 1]) / (2.0 * dcrd[0]) -
             (As[2 * 1 + 1, 0] - As[2 * 1 + 0, 0]) / (2.0 * dcrd[1]))
     return c
 
diff --git a/viscid/calculator/plasma.py b/viscid/calculator/plasma.py
index 1d12e84..55f2c53 100644
--- a/viscid/calculator/plasma.py
+++ b/viscid/calculator/plasma.py
@@ -80,11 +80,15 @@ def calc_psi(B, rev=False):
     ycc, zcc = B.get_crds(comps)
     comp_views = B.component_views()
     hy, hz = comp_views[comp_inds[0]], comp_views[comp_inds[1]]
+    # the axes could be transposed, i.e., ("z", "y")
+    transposed = list(B.crds.axes) != list(comps)
+    if transposed:
+        hy, hz = hy.T, hz.T
     dy = ycc[1:] - ycc[:-1]
     dz = zcc[1:] - zcc[:-1]
     ny, nz = len(ycc), len(zcc)
 
-    A = np.empty((ny, nz), dtype=B.dtype)
+    A = np.empty((ny, nz), dtype=np.result_type(B.dtype, "f4"))
 
     if rev:
         A[-1, -1] = 0.0
@@ -101,6 +105,8 @@ def calc_psi(B, rev=False):
         for j in range(1, nz):
             A[:, j] = A[:, j - 1] - dz[j - 1] * 0.5 * (hy[:, j - 1] + hy[:, j])
 
+    if transposed:
+        A = A.T
     psi = field.wrap_field(A, B.crds, name="psi", center=B.center,
                            pretty_name=r"$\psi$", parents=[B])
     if reduced_axes:
-- 
2.43.0


From 21255a04d4f86c666966d129fee0adea449662a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 22/54] fix: rotations: arguments changed in place, quaternions
 of any length and type, axes of rotation matrices without the quick path,
 angles of parallel vectors, roll towards a new x axis

---
 viscid/rotation.py | 65 +++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 39 deletions(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index 44f2497..f9133e1 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -530,18 +530,16 @@ def rot2angle(R, axes='zyx', unit='rad', bad_matrix='warn'):
             s0p2, c0p2 = - R[..., 2, 0], R[..., 0, 0]
 
         c1 = np.sqrt(c0c1**2 + s0c1**2)
-        for arr in (s1, c1, c0c1, s0c1, s2c1, c2c1, s0p2, c0p2):
-            np.clip(arr, -1.0, 1.0, arr)
         is_singular = np.abs(c1) < singular_threshold
 
         angle0 = np.where(is_singular,
                           0.0,
-                          np.arctan2(s0c1 / c1, c0c1 / c1)
+                          np.arctan2(s0c1, c0c1)
                           )
         angle1 = np.arctan2(s1, c1)
         angle2 = np.where(is_singular,
                           np.arctan2(s0p2, c0p2),
-                          np.arctan2(s2c1 / c1, c2c1 / c1)
+                          np.arctan2(s2c1, c2c1)
                           )
     elif axes in ('zyz', 'zxz', 'yzy', 'yxy', 'xzx', 'xyx'):
         if axes == 'zyz':
@@ -576,8 +574,6 @@ def rot2angle(R, axes='zyx', unit='rad', bad_matrix='warn'):
             s0p2, c0p2 = R[..., 2, 1], R[..., 1, 1]
 
         s1 = np.sqrt(s0s1**2 + c0s1**2)
-        for arr in (s1, c1, s0s1, c0s1, s1s2, s1c2, s0p2, c0p2):
-            np.clip(arr, -1.0, 1.0, arr)
         is_singular = np.abs(s1) < singular_threshold
 
         angle0 = np.where(is_singular,
@@ -773,13 +769,13 @@ def quat2rot(q):
     q = np.asarray(q)
     if hasattr(np, 'quaternion') and q.dtype == 'quaternion':
         single_val = q.shape == ()
-        q = q.reshape(-1)
+        q = np.array(q.reshape(-1)).view(dtype=np.double).reshape(-1, 4)
     else:
         single_val = q.shape == (4,)
-    q = q.view(dtype=np.double).reshape(-1, 4)
+        q = np.array(q, dtype=np.double).reshape(-1, 4)
 
     q_norm = np.linalg.norm(q, axis=-1)
-    do_renorm = ~np.bitwise_or(np.isclose(q_norm, 0.0), np.isclose(q_norm, 1.0))
+    do_renorm = q_norm > 0.0
     q[do_renorm, :] /= q_norm[do_renorm].reshape(-1, 1)
     del q_norm, do_renorm
 
@@ -893,7 +889,6 @@ def quatmul(*quats):
             q0 = q0 * q
     else:
         q0 = np.array([1, 0, 0, 0], dtype=np.double).reshape(1, 4)
-        r = np.zeros([1, 4], dtype=np.double)
 
         for q in quats:
             q = np.asarray(q, dtype=np.double)
@@ -902,18 +897,13 @@ def quatmul(*quats):
             q = q.reshape(-1, 4)
             a0, a1, a2, a3 = q0[:, 0], q0[:, 1], q0[:, 2], q0[:, 3]
             b0, b1, b2, b3 = q[:, 0], q[:, 1], q[:, 2], q[:, 3]
-            if len(q) > len(q0):
-                q0 = (q0.reshape(1, -1)
-                      * np.array([1] + [0] * (len(q) - len(q0))).reshape(-1, 1))
-            if len(q) > len(r):
-                r = (r.reshape(1, -1)
-                      * np.array([1] + [0] * (len(q) - len(r))).reshape(-1, 1))
 
+            r = np.zeros([max(len(q0), len(q)), 4], dtype=np.double)
             r[:, 0] = a0 * b0 - a1 * b1 - a2 * b2 - a3 * b3
             r[:, 1] = a1 * b0 + a0 * b1 - a3 * b2 + a2 * b3
             r[:, 2] = a2 * b0 + a3 * b1 + a0 * b2 - a1 * b3
             r[:, 3] = a3 * b0 - a2 * b1 + a1 * b2 + a0 * b3
-            q0[:, :] = r[:, :]
+            q0 = r
 
     if single_val:
         q0 = q0[0]
@@ -1070,7 +1060,7 @@ def rot2wxyz(R, unit='rad', quick=True, bad_matrix='warn'):
     if any(null_mask):
         # calculate eigen vectors for transforms where the quick
         # method failed (or was never calculated)
-        eigval, eigvecs = np.linalg.eigh(R[null_mask])
+        eigval, eigvecs = np.linalg.eig(R[null_mask])
         idx_evec = np.argmin(np.abs(eigval - 1.0), axis=1)
         # eigenvector for eigenval closest to 1.0
         u[null_mask, :] = eigvecs[np.arange(len(eigvecs)), :, idx_evec].real
@@ -1155,7 +1145,7 @@ def wxyz2quat(angle, vector, unit='rad'):
 
     half_theta_rad = convert_angle(angle, unit, 'rad') / 2
 
-    q = np.zeros([len(half_theta_rad), 4], dtype=np.double)
+    q = np.zeros([max(len(half_theta_rad), len(vector)), 4], dtype=np.double)
 
     q[:, 0:1] = np.cos(half_theta_rad)
     q[:, 1:] = (np.sin(half_theta_rad)
@@ -1211,7 +1201,7 @@ def quat2wxyz(q, unit='rad'):
     wxyz = np.zeros([len(q), 4], dtype=np.double)
 
     # normalize quats
-    q = q / np.linalg.norm(q, axis=1)[-1, np.newaxis]
+    q = q / np.linalg.norm(q, axis=1)[:, np.newaxis]
 
     vec_norm = np.linalg.norm(q[:, 1:], axis=1)
     wxyz[:, 0] = 2 * np.arctan2(vec_norm, q[:, 0])
@@ -1268,7 +1258,8 @@ def angle_between(a, b, unit='rad'):
     b_norm = np.linalg.norm(b, axis=-1)
 
     normdot = np.sum(a * b, axis=-1) / (a_norm * b_norm)
-    angle_rad = np.arccos(normdot)
+    # roundoff can push parallel vectors out of the domain of arccos
+    angle_rad = np.arccos(np.clip(normdot, -1.0, 1.0))
 
     if single_val:
         angle_rad = angle_rad[0]
@@ -1302,18 +1293,19 @@ def a2b_rot(a, b, roll=0.0, unit='rad', new_x=None):
     b = np.atleast_2d(b)
     roll = np.atleast_2d(roll)
 
-    a /= np.linalg.norm(a, axis=1).reshape(-1, 1)
-    b /= np.linalg.norm(b, axis=1).reshape(-1, 1)
+    a = a / np.linalg.norm(a, axis=1).reshape(-1, 1)
+    b = b / np.linalg.norm(b, axis=1).reshape(-1, 1)
 
     theta_rad = np.arctan2(np.linalg.norm(np.cross(a, b, axis=1), axis=1),
                            np.sum(a * b, axis=1))
     axis = np.cross(a, b, axis=1)
+    a_all = np.broadcast_to(a, axis.shape)
     null_mask = np.isclose(np.linalg.norm(axis, axis=1), 0.0)
     if any(null_mask):
-        axis[null_mask, :] = np.cross(a[null_mask, :], [[1, 0, 0]], axis=1)
+        axis[null_mask, :] = np.cross(a_all[null_mask, :], [[1, 0, 0]], axis=1)
         null_mask = np.isclose(np.linalg.norm(axis, axis=1), 0.0)
         if any(null_mask):
-            axis[null_mask, :] = np.cross(a[null_mask, :], [[0, 1, 0]], axis=1)
+            axis[null_mask, :] = np.cross(a_all[null_mask, :], [[0, 1, 0]], axis=1)
 
     R = wxyz2rot(theta_rad, axis)
 
@@ -1322,20 +1314,14 @@ def a2b_rot(a, b, roll=0.0, unit='rad', new_x=None):
         assert roll == 0.0
         new_x = np.asarray(new_x, dtype=np.double).reshape(-1, 3)
         new_x = new_x - np.sum(new_x * b, axis=1)[:, np.newaxis] * b
-        new_x_norm = np.linalg.norm(new_x, axis=1)[:, np.newaxis]
-        roll = np.zeros([len(new_x)], dtype=np.double)
-        no_norm = np.isclose(new_x_norm[:, 0], 0.0)
-        roll[no_norm] = 0.0
-        if any(~no_norm):
-            current_x = np.einsum('mij,mj->mi', R, [[1, 0, 0]])
-            new_x /= new_x_norm
-            current_x /= np.linalg.norm(current_x, axis=1)[:, np.newaxis]
-            s_roll = np.linalg.norm(np.cross(current_x, new_x, axis=1), axis=1)
-            c_roll = np.sum(current_x * new_x, axis=1)
-            roll[~no_norm] = np.arctan2(s_roll, c_roll)
-            roll[~no_norm] = convert_angle(roll[~no_norm], 'rad', unit)
-            roll[~no_norm] *= np.sign(np.sum(np.cross(current_x, new_x, axis=1)
-                                             * b, axis=1))
+        no_norm = np.isclose(np.linalg.norm(new_x, axis=1), 0.0)
+        current_x = np.einsum('mij,mj->mi', R, [[1, 0, 0]])
+        current_x = current_x - np.sum(current_x * b, axis=1)[:, np.newaxis] * b
+        # signed angle around b
+        s_roll = np.sum(np.cross(current_x, new_x, axis=1) * b, axis=1)
+        c_roll = np.sum(current_x * new_x, axis=1)
+        roll = np.where(no_norm, 0.0, np.arctan2(s_roll, c_roll))
+        roll = convert_angle(roll, 'rad', unit)
 
     if np.any(roll):
         roll_rad = convert_angle(roll, unit, 'rad')
@@ -1887,6 +1873,7 @@ def _check_a2b_rot():
                         [0.0, -1.0, 1.0],
                         [-1.0, 0.0, 1.0],
                         [-1.0, 1.0, 0.0], ])
+    vectors /= np.linalg.norm(vectors, axis=1).reshape(-1, 1)
     angles = np.linspace(-2 * np.pi, 2 * np.pi, 33)
 
     for _, a in enumerate(vectors):
-- 
2.43.0


From 2ab4dc26429efc65001b919b89ffb315b0faf0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 23/54] fix: elapsed times lost fractions of large numbers,
 overflow of differences and evenly spaced times, formatted fractions didn't
 carry or were put in the wrong place

---
 viscid/npdatetime.py | 101 +++++++++++++++++++++++++++++++++----------
 1 file changed, 77 insertions(+), 24 deletions(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index d2a6cbe..cf24e16 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -171,9 +171,17 @@ def _as_timedelta64_scalar(time, unit=None):
     elif isinstance(time, (np.timedelta64, timedelta)):
         time = np.timedelta64(time).astype(_format_unit(unit, base=DELTA_BASE))
     elif isinstance(time, (int, float, np.integer, np.floating)):
+        if flt_unit in ('D', 'W'):
+            time, flt_unit = time * (24 if flt_unit == 'D' else 7 * 24), 'h'
+        if isinstance(time, np.floating):
+            time = float(time)
         orig_time, orig_flt_unit = time, flt_unit
         unit_idx = TIME_UNITS.index(flt_unit)
-        while not np.isclose(time, int(np.round(time)), rtol=1e-4, atol=1e-18):
+        # the unit may be off by 1 part in 1e4, but by no more than 1 ns (and
+        # no less than roundoff)
+        seconds = abs(time) * 1e-18 * np.prod(TIME_SCALE[:unit_idx])
+        rtol = max(1e-9 / max(seconds, 1e-5), 1e-15)
+        while not np.isclose(time, int(np.round(time)), rtol=rtol, atol=1e-18):
             if unit_idx <= 0:
                 raise ValueError("Floating point time {0} [{1}] is too precise "
                                  "for any time unit?".format(orig_time, orig_flt_unit))
@@ -235,7 +243,7 @@ def as_isotime(time):
         return ret[0]
     else:
         if isinstance(time, np.ndarray):
-            return np.array(time, dtype=time.dtype)
+            return np.array(ret)
         else:
             return ret
 
@@ -347,9 +355,12 @@ def linspace_datetime64(start, stop, n, endpoint=True, unit=None):
     stop = as_datetime64(stop, unit=unit)
     start, stop = regularize_time([start, stop], most_precise=True)
 
-    fltarr = np.linspace(start.astype('i8'), stop.astype('i8'), n,
-                         endpoint=endpoint, dtype='f8')
-    return np.round(fltarr, 0).astype('i8').astype(start.dtype)
+    # integers, since the ends could need more digits than a double has
+    i0, i1 = int(start.astype('i8')), int(stop.astype('i8'))
+    nsteps = max(n - 1 if endpoint else n, 1)
+    intarr = [i0 + (2 * (i1 - i0) * i + nsteps) // (2 * nsteps)
+              for i in range(n)]
+    return np.array(intarr, dtype='i8').astype(start.dtype)
 
 def _most_precise_t_unit(tlst):
     """Find the most precise time unit from the bunch
@@ -410,7 +421,11 @@ def _adjust_t_unit(t, unit, cfunc=None, allow0=True):
     else:
         # we want a less precise unit, i.e., round t to the new unit... raise
         # a PrecisionError if t was rounded to 0
-        t1 = cfunc(t, unit=unit)
+        try:
+            t1 = cfunc(t, unit=unit)
+        except OverflowError:
+            # Numpy has no factor between the finest units and, e.g., seconds
+            t1 = cfunc(cfunc(t, unit='ns'), unit=unit)
         if not allow0 and t1.astype('i8') == 0 and t.astype('i8') != 0:
             raise PrecisionError("The time {0} was truncated to 0 when "
                                  "rounded to the nearest '{1}'"
@@ -521,6 +536,9 @@ def regularize_time(tlst, unit=None, most_precise=False, allow_rounding=True,
         else:
             unit = u
             break
+    else:
+        raise OverflowError("There is no unit that fits all times: {0}"
+                            "".format(tlst))
 
     # if we want the most precise unit that fits everything, then keep
     # refining the unit until we get an OverflowError
@@ -543,6 +561,21 @@ def regularize_time(tlst, unit=None, most_precise=False, allow_rounding=True,
         else:
             return ret
 
+def _exact_or_raise(lhs, rhs, result, sign=1):
+    """raise OverflowError if lhs + sign * rhs didn't fit into result"""
+    exact = [int(a) + sign * int(b) for a, b
+             in zip(*[np.ravel(x) for x in np.broadcast_arrays(
+                 np.asarray(lhs).astype('i8'), np.asarray(rhs).astype('i8'))])]
+    if exact != [int(r) for r in np.ravel(np.asarray(result).astype('i8'))]:
+        raise OverflowError("result does not fit into '{0}'"
+                            "".format(_get_unit(result)))
+    return result
+
+def _coarser_units(t):
+    """units of t, and all units that are more coarse but not months"""
+    i = ORDERED_UNITS.index(_get_unit(t))
+    return ORDERED_UNITS[i:ORDERED_UNITS.index('W') + 1] or [_get_unit(t)]
+
 def time_sum(t0, tdelta, unit=None, most_precise=False, allow_rounding=True,
              allow0=True):
     """Add timedelta64 to datetime64 at highest precision w/o overflow
@@ -577,7 +610,14 @@ def time_sum(t0, tdelta, unit=None, most_precise=False, allow_rounding=True,
                                  most_precise=most_precise,
                                  allow_rounding=allow_rounding,
                                  allow0=allow0)
-    return t0 + tdelta
+    for u in _coarser_units(t0):
+        a = _adjust_t_unit(t0, u, allow0=allow0)
+        b = _adjust_t_unit(tdelta, u, allow0=allow0)
+        try:
+            return _exact_or_raise(a, b, a + b)
+        except OverflowError:
+            if not allow_rounding or u == 'W':
+                raise
 
 def time_diff(t1, t2, unit=None, most_precise=False):
     """Diff two datetime64s at highest precision w/o overflow
@@ -601,7 +641,13 @@ def time_diff(t1, t2, unit=None, most_precise=False):
     t1 = as_datetime64(t1)
     t2 = as_datetime64(t2)
     t1, t2 = regularize_time([t1, t2], unit=unit, most_precise=most_precise)
-    return t1 - t2
+    for u in _coarser_units(t1):
+        a, b = _adjust_t_unit(t1, u), _adjust_t_unit(t2, u)
+        try:
+            return _exact_or_raise(a, b, a - b, sign=-1)
+        except OverflowError:
+            if u == 'W':
+                raise
 
 def is_valid_datetime64(arr, unit=None):
     """Returns True iff arr can be made into a datetime64 array"""
@@ -691,19 +737,23 @@ def format_time(time, fmt='.02f', basetime=None):
         if fmt.startswith('d'):
             days = int(as_timedelta64(dttime) / np.timedelta64(1, 'D'))
             if days == 1:
-                days_str = '{0} day'.format(days)
+                days_str = '{0} day '.format(days)
             else:
                 days_str = '{0} days '.format(days)
+            ret = datetime.strftime(dttime, days_str + '%H:%M:%S')
+        elif is_datetime_like(time):
+            ret = datetime.strftime(dttime, '%H:%M:%S')
         else:
-            days_str = ''
-        ret = datetime.strftime(dttime, days_str + '%H:%M:%S')
+            # hours of an elapsed time don't wrap around at midnight
+            hours = int(as_timedelta64(dttime) / np.timedelta64(1, 'h'))
+            ret = '{0:02d}'.format(hours) + datetime.strftime(dttime, ':%M:%S')
         if fmt.endswith('ss'):
             _tt = time_diff(dttime, basetime) / np.timedelta64(1, 's')
             ret += " ({0:06d})".format(int(_tt))
     elif '%' not in fmt:
         # if there's no % symbol, then it's probably not a strftime format,
         # so use fmt as normal string formatting of total_seconds
-        _tt = (as_datetime64(time) - basetime) / np.timedelta64(1, 's')
+        _tt = time_diff(time, basetime) / np.timedelta64(1, 's')
         ret = "{0:{1}}".format(_tt, fmt.strip())
     else:
         if not fmt:
@@ -713,17 +763,19 @@ def format_time(time, fmt='.02f', basetime=None):
             msec_fmt = re.findall(r"%\.?([0-9]*)f", fmt)
             fmt = re.sub(r"%\.?([0-9]*)f", "%f", fmt)
 
-        tstr = datetime.strftime(dttime, fmt)
-
-        # now go back and for any %f -> [0-9]{6}, reformat the precision
-        it = list(izip(msec_fmt, re.finditer("[0-9]{6}", tstr)))
-        for ffmt, m in reversed(it):
-            a, b = m.span()
-            val = float("0." + tstr[a:b])
-            ifmt = int(ffmt) if len(ffmt) > 0 else 6
-            f = "{0:0.{1}f}".format(val, ifmt)[2:]
-            tstr = tstr[:a] + f + tstr[b:]
-        ret = tstr
+        # round to the digits that will be printed, this may carry all the
+        # way to the next second / minute / ...
+        ndigits = [int(ffmt) if len(ffmt) > 0 else 6 for ffmt in msec_fmt]
+        if ndigits:
+            step = 10**max(6 - max(ndigits), 0)
+            usec = int(round(dttime.microsecond / step)) * step
+            dttime += timedelta(microseconds=usec - dttime.microsecond)
+
+        # fill in the fractions between the parts that strftime can do
+        parts = [datetime.strftime(dttime, part) for part in fmt.split("%f")]
+        ret = parts[0]
+        for n, part in zip(ndigits, parts[1:]):
+            ret += "{0:06d}".format(dttime.microsecond).ljust(n, '0')[:n] + part
     return ret
 
 def _check_like(val, _np_types, _native_types, check_str=None):  # pylint: disable=too-many-return-statements
@@ -762,7 +814,8 @@ def datetime64_as_years(time):
     time = as_datetime64(time)
     epoch_year = 1970
     epoch = as_datetime64("{0}-01-01T00:00:00.0".format(epoch_year))
-    tdelta = time_diff(time, epoch, most_precise=True)
+    tdelta = time_diff(time, epoch)
+    tdelta = round_time(tdelta, 'ms')
     years = tdelta / np.timedelta64(1, 'D') / 365.242 + epoch_year
     return years
 
-- 
2.43.0


From 2e9964518a23d9e50eb02710ef47e072d4298447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 24/54] fix: no-tilt date, cotr of a dipole moment, cotr from a
 mapping, angle of identity rotations

---
 viscid/cotr.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index 96c388e..cb9afbf 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -124,11 +124,16 @@ _IGRF = np.array([[1950.0, -30554.00, -2250.00, 5815.00],
                   [2015.0, -29442.00, -1501.00, 4797.10]], dtype='f8')
 
 
+def _is_notilt_time(time):
+    """is time on 1 Jan 1967, OpenGGCM's special no-tilt day"""
+    dt = as_datetime(time)
+    return (dt.year, dt.month, dt.day) == (1967, 1, 1)
+
 def _igrf_interpolate(time, notilt1967=True):
     # get time as decimal year, note that epoch is completely arbitrary
     years = datetime64_as_years(time)
 
-    if notilt1967 and np.abs(years - 1967.0) < 0.0006:
+    if notilt1967 and _is_notilt_time(time):
         # OpenGGCM special no-tilt hack
         # g10, g11, h11 = np.linalg.norm(IGRF[0, 1:]), 0.0, 0.0
         g10, g11, h11 = -30554.00, 0.0, 0.0
@@ -283,7 +288,7 @@ def get_rotation_wxyz(mat, check_inverse=True, quick=True):
     # rotate `b1` and then find the angle between result (`b2`) at `b1`
     b2 = np.dot(mat, b1)
     b2 = b2 / np.linalg.norm(b2)  # minimize effect of roundoff error
-    angleB = np.rad2deg(np.arccos(np.dot(b1, b2)))
+    angleB = np.rad2deg(np.arccos(np.clip(np.dot(b1, b2), -1.0, 1.0)))
 
     # fix sign of `u` to make the rotation angle right handed, note that
     # the angle will always be positive due to range or np.arccos
@@ -442,8 +447,7 @@ class Cotr(object):
         self.h11 = h11
 
         self._disable_mag_crds = dip_tilt is not None or dip_gsm is not None
-        years = datetime64_as_years(time)
-        notilt = notilt1967 and np.abs(years - 1967.0) < 0.0006
+        notilt = notilt1967 and _is_notilt_time(time)
 
         # do i really want the self._disable_mag_crds part of this? what
         # if i want dip_gsm set by the time, and dip_tilt set by hand...
@@ -791,6 +795,8 @@ def as_cotr(thing=None, default=_NOT_GIVEN):
         cotr = thing.__cotr__
     elif is_datetime_like(thing):
         cotr = Cotr(time=thing)
+    elif hasattr(thing, "keys"):
+        cotr = Cotr(**thing)
     else:
         try:
             cotr = thing.find_attr("__cotr__")
@@ -892,7 +898,8 @@ def dipole_moment2cotr(m, crd_system='gse'):
     """
     if as_crd_system(crd_system) not in ('gse', 'mhd'):
         raise ValueError('bad crd_system: {0}'.format(crd_system))
-    m = Cotr(dip_tilt=0.0, dip_gsm=0.0).transform(crd_system, 'gse', m)
+    # the dipole axis (SM-Z) is antiparallel to the moment
+    m = -1.0 * Cotr(dip_tilt=0.0, dip_gsm=0.0).transform(crd_system, 'gse', m)
     gsm = np.rad2deg(np.arctan2(m[1], m[2]))
     tilt = np.rad2deg(np.arctan2(m[0], np.linalg.norm(m[1:])))
     return Cotr(dip_tilt=tilt, dip_gsm=gsm)
-- 
2.43.0


From db84fe20b978542c2ada3c4be2e52ff67c374b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 25/54] fix: whole days as datetime objects and not as dates

---
 viscid/npdatetime.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index cf24e16..62003ce 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -303,7 +303,11 @@ def as_datetime(time, unit=None):
         dt64 = as_datetime64(time, unit=unit)
     except ValueError:
         dt64 = as_datetime64(as_timedelta64(time, unit=unit))
-    return round_time(dt64, 'us').astype(datetime)
+    dt64 = round_time(dt64, 'us')
+    if _is_dateunit(dt64):
+        # as datetime objects, and not as date objects
+        dt64 = dt64.astype(_format_unit('s'))
+    return dt64.astype(datetime)
 
 def as_timedelta(time, unit=None, allow0=True):
     """Convert time to a Numpy ndarray of datetime.datetime objects
-- 
2.43.0


From 8b681d826edbb9547f4cf8453b40585576f33960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 26/54] fix: seeds: splines changed when asked twice or with
 over 6 knots and skipped a point, ends of spherical caps, shape of mesh
 points, uv points of lines

---
 viscid/seed.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index bb837c8..62818a7 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -374,7 +374,7 @@ class MeshPoints(SeedGen):
         return (self.nu, self.nv)
 
     def get_local_shape(self, **kwargs):
-        return self.get_local_shape()
+        return self.get_uv_shape()
 
     def uv_to_local(self, pts_uv):
         return pts_uv
@@ -456,7 +456,7 @@ class Line(SeedGen):
         return (self.nr_points, )
 
     def uv_to_local(self, pts_uv):
-        return pts_uv[:, :1]
+        return pts_uv[0]
 
     def to_3d(self, pts_local):
         ds = self.p1 - self.p0
@@ -523,16 +523,14 @@ class Spline(SeedGen):
         return (self.nr_points, )
 
     def uv_to_local(self, pts_uv):
-        return pts_uv[:, :1]
+        return pts_uv[0]
 
     def to_3d(self, pts_local, **kwargs):
         import scipy.interpolate as interpolate
-        k = self.splprep_opts.pop("k", self.knots.shape[1] - 1)
-        tck, u = interpolate.splprep(self.knots, k=k, **self.splprep_opts)
-        u = np.linspace(0, 1, self.n + 1, endpoint=True)
-        coords = np.vstack(interpolate.splev(u, tck))
-        coords = coords[:, (pts_local * self.n).astype(int)].astype(self.dtype)
-        return coords
+        opts = dict(self.splprep_opts)
+        k = opts.pop("k", min(self.knots.shape[1] - 1, 5))
+        tck, u = interpolate.splprep(self.knots, k=k, **opts)
+        return np.vstack(interpolate.splev(pts_local, tck)).astype(self.dtype)
 
     def to_local(self, pts_3d):
         raise NotImplementedError()
@@ -1217,7 +1215,9 @@ class SphericalCap(Sphere):
             angle (float): cone angle of the cap in degrees
             **kwargs: passed to :py:class:`Sphere` constructor
         """
-        super(SphericalCap, self).__init__(thetalim=(angle0, angle), **kwargs)
+        super(SphericalCap, self).__init__(thetalim=(angle0, angle),
+                                           theta_endpoint=theta_endpoint,
+                                           **kwargs)
 
     @property
     def angle0(self):
-- 
2.43.0


From 8a5a6d93396420b81286ac27108e4250f6ebc1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 27/54] fix: degrees and integers in spherical conversions,
 units of mapped fields, masks and points of dipoles, great circles through
 opposite points, padding of units

---
 viscid/coordinate.py |  2 +-
 viscid/dipole.py     | 45 +++++++++++++++++++++++++++-----------------
 viscid/field.py      |  3 +++
 viscid/mapfield.py   | 25 +++++++++++++++++-------
 4 files changed, 50 insertions(+), 25 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 2b228c8..b168cca 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -186,7 +186,7 @@ class Coordinates(object):
             units = self._units
             if not isinstance(units, (list, tuple)):
                 units = [units] * self.nr_dims
-            units += [None] * (len(units) - self.nr_dims)
+            units = list(units) + [None] * (self.nr_dims - len(units))
             units = ["" if u is None else u.strip() for u in units]
             self._units = units
             self._units_validated = True
diff --git a/viscid/dipole.py b/viscid/dipole.py
index 7bceee6..e50128a 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -99,7 +99,7 @@ def fill_dipole(B, m=(0, 0, -DEFAULT_STRENGTH), strength=None, mask=None):
         Field: B
     """
     # FIXME: should really be taking the curl of a vector field
-    if mask:
+    if mask is not None:
         Bdip = field.empty_like(B)
     else:
         Bdip = B
@@ -141,10 +141,21 @@ def fill_dipole(B, m=(0, 0, -DEFAULT_STRENGTH), strength=None, mask=None):
             mdotr = mx * _X + my * _Y + mz * _Z
             Bdip[cn] = ((three * _XI * mdotr / rsq) - _mi) / rsq**1.5
 
-    if mask:
-        B.data[...] = np.choose(mask.astype('i'), [B, Bdip])
+    if mask is not None:
+        B.data[...] = np.where(_mask_like(mask, B), Bdip.data, B.data)
     return B
 
+def _mask_like(mask, fld):
+    """Make mask into an ndarray that broadcasts with fld.data"""
+    if isinstance(mask, viscid.field.Field):
+        if mask.nr_comps:
+            mask = mask.as_centered(fld.center).as_layout(fld.layout)
+        mask = mask.data
+    mask = np.asarray(mask, dtype='bool')
+    if fld.nr_comps and mask.ndim == fld.data.ndim - 1:
+        mask = np.expand_dims(mask, fld.nr_comp)
+    return mask
+
 def calc_dip(pts, m=(0, 0, -DEFAULT_STRENGTH), strength=None, crd_system='gse',
              dtype=None):
     """Calculate a dipole field at various points
@@ -171,8 +182,9 @@ def calc_dip(pts, m=(0, 0, -DEFAULT_STRENGTH), strength=None, crd_system='gse',
     else:
         single_pt = False
 
-    if dtype is None:
-        dtype = pts.dtype
+    if pts.dtype.kind != 'f':
+        pts = pts.astype('f8')
+    dtype = pts.dtype
 
     one = np.array([1.0], dtype=dtype)  # pylint: disable=W0612
     three = np.array([3.0], dtype=dtype)  # pylint: disable=W0612
@@ -194,11 +206,13 @@ def calc_dip(pts, m=(0, 0, -DEFAULT_STRENGTH), strength=None, crd_system='gse',
         _X, _Y, _Z = pts.T
         rsq = ne.evaluate("_X**2 + _Y**2 + _Z**2")  # pylint: disable=W0612
         mdotr = ne.evaluate("mx * _X + my * _Y + mz * _Z")  # pylint: disable=W0612
+        rsq, mdotr = rsq.reshape(-1, 1), mdotr.reshape(-1, 1)
         Bdip = ne.evaluate("((three * pts * mdotr / rsq) - m) / rsq**1.5")
     else:
         _X, _Y, _Z = pts.T
         rsq = _X**2 + _Y**2 + _Z**2
         mdotr = mx * _X + my * _Y + mz * _Z
+        rsq, mdotr = rsq.reshape(-1, 1), mdotr.reshape(-1, 1)
         Bdip = ((three * pts * mdotr / rsq) - m) / rsq**1.5
 
     if single_pt:
@@ -226,13 +240,7 @@ def set_in_region(a, b, alpha=1.0, beta=1.0, mask=None, out=None):
     if mask is None:
         out.data[...] = vals
     else:
-        if hasattr(mask, "nr_comps") and mask.nr_comps:
-            mask = mask.as_centered(a.center).as_layout(a.layout)
-        try:
-            out.data[...] = np.choose(mask, [out.data, vals])
-        except ValueError:
-            out.data[...] = np.choose(mask.data.reshape(list(mask.sshape) + [1]),
-                                      [out.data, vals])
+        out.data[...] = np.where(_mask_like(mask, out), vals, out.data)
     return out
 
 def make_spherical_mask(fld, rmin=0.0, rmax=None, rsq=None):
@@ -249,7 +257,7 @@ def make_spherical_mask(fld, rmin=0.0, rmax=None, rsq=None):
             rsq = np.sum([c**2 for c in _crd_lst[i]], axis=0)
             _slc = [slice(None)] * len(fld.shape)
             _slc[fld.nr_comp] = i
-            mask[_slc] = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)
+            mask[tuple(_slc)] = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)
         return fld.wrap_field(mask, dtype='bool')
     else:
         rsq = np.sum([c**2 for c in fld.get_crds(shaped=True)], axis=0)
@@ -332,7 +340,7 @@ def dipole_map(pts, r=1.0, cotr=None, crd_system='gse', as_spherical=False):
     rlp_mapped = np.empty_like(lsrlp[1:, :])
     rlp_mapped[0, :] = r
     # root is determined by sign of latitude in sm?
-    root = np.sign(lsrlp[2:3, :])
+    root = np.where(lsrlp[2:3, :] < 0, -1.0, 1.0)
     rlp_mapped[1, :] = root * np.arccos(np.sqrt(r / lsrlp[0:1, :]))
     rlp_mapped[2, :] = lsrlp[3:4, :]
     del lsrlp
@@ -366,17 +374,20 @@ def dipole_map_value(fld, pts, r=1.0, fillna=None, cotr=None,
     if crd_system is None:
         crd_system = viscid.as_crd_system(fld, 'gse')
 
-    if fld.is_spherical:
+    if fld.is_spherical():
         # TODO: verify that crd_system works as expected for ionosphere
         #       fields (ie, meaning of +x and phi = 0)
-        fld = viscid.as_spherefield(fld, order=('theta', 'phi'))['r=newaxis, ...']
+        # the mapped pts are in degrees
+        units = ['deg' if u else '' for u in fld.crds.units]
+        fld = viscid.as_spherefield(fld, order=('theta', 'phi'),
+                                    units=units)['r=newaxis, ...']
     else:
         pass
 
     # pts should be shaped 3xNX*NY*NZ or similar such that the points
     # are in the same order as the flattened c-contiguous array
     mapped_pts = dipole_map(pts, r=r, cotr=cotr, crd_system=crd_system,
-                            as_spherical=fld.is_spherical)
+                            as_spherical=fld.is_spherical())
     ret = viscid.interp(fld, mapped_pts, kind=interp_kind, wrap=False)
     if fillna is not None:
         ret[np.isnan(ret)] = fillna
diff --git a/viscid/field.py b/viscid/field.py
index 18ed097..1b48b14 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1957,6 +1957,9 @@ class Field(tree.Leaf):
                 fldtype = self.fldtype
             else:
                 fldtype = "scalar"
+        if self.nr_comps and tuple(data.shape) == tuple(self.shape):
+            # the shape may not say which dimension is the component
+            kwargs.setdefault('layout', self.layout)
         return viscid.wrap_field(data, self.crds, name=name, fldtype=fldtype,
                                  center=center, **kwargs)
 
diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 6964594..9100de8 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -53,7 +53,7 @@ def fld_noop(fld, base, target, unit=''):
 def _prep_units(order, units='', fld=None):
     if not isinstance(units, (list, tuple)):
         units = [units] * len(order)
-    units += [None] * (len(units) - len(order))
+    units = list(units) + [None] * (len(order) - len(units))
     units = ['' if u is None else u.strip() for u in units]
     if fld is not None:
         crds = fld.crds
@@ -76,7 +76,7 @@ def _make_transform_unit_func(base_unit, target_unit):
 
 def _get_axinds(fld, ax):
     dcrd = fld.crds.ind(ax)
-    ddat = dcrd + 1 if fld.nr_comps and fld.nr_comp < dcrd else dcrd
+    ddat = dcrd + 1 if fld.nr_comps and fld.nr_comp <= dcrd else dcrd
     return dcrd, ddat
 
 def _fld_xform_common(fld, base, target, unit, crd_xform, dat_xform, raw=False):
@@ -111,6 +111,7 @@ def fld_phi2lon(fld, base='phi', target='lon', unit='deg'):
 
 def fld_theta2lat(fld, base='theta', target='lat', unit='deg'):
     _, ddat = _get_axinds(fld, base)
+    unit = unit if unit else fld.crds.get_unit(base)
     crd_xform = lambda x: theta2lat(x, unit=unit)[::-1]
     dslc = [slice(None)] * fld.nr_dims
     dslc[ddat] = slice(None, None, -1)
@@ -124,6 +125,7 @@ def fld_lon2phi(fld, base='lon', target='phi', unit='deg'):
 
 def fld_lat2theta(fld, base='lat', target='theta', unit='deg'):
     dcrd, ddat = _get_axinds(fld, base)
+    unit = unit if unit else fld.crds.get_unit(base)
     crd_xform = lambda x: lat2theta(x, unit=unit)[::-1]
     dslc = [slice(None)] * fld.nr_dims
     dslc[ddat] = slice(None, None, -1)
@@ -252,14 +254,14 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
     abs_bounding_lat = abs(bounding_lat)
 
     if hemisphere in ("north", 'n'):
-        if np.all(mfld.get_crd('lat') < abs_bounding_lat):
+        if np.all(mfld.get_crd('lat') < np.pi / 2 - abs_bounding_lat):
             raise ValueError("fld {0} contains no values north of bounding lat "
                              "{1:g} deg"
                              "".format(fld.name, bounding_lat * 180 / np.pi))
         # mfld = mfld["lat=:{0}j:-1".format(abs_bounding_lat)]
         mfld = mfld.loc[:, :np.pi / 2 - abs_bounding_lat:-1]
     elif hemisphere in ("south", 's'):
-        if np.all(mfld.get_crd('lat') > -abs_bounding_lat):
+        if np.all(mfld.get_crd('lat') > -np.pi / 2 + abs_bounding_lat):
             raise ValueError("fld {0} contains no values south of bounding lat "
                              "{1:g} deg"
                              "".format(fld.name, bounding_lat * 180 / np.pi))
@@ -287,7 +289,8 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
 
         if phi_diff < 2 * np.pi - 1e-5:
             if mfld.crds.is_uniform():
-                clist[0][1][1] += phi_diff / clist[0][1][2]
+                clist[0][1][1] += phi_diff / (clist[0][1][2] - 1)
+                clist[0][1][2] += 1
                 if not np.isclose(clist[0][1][1] - clist[0][1][0], 2 * np.pi):
                     viscid.logger.warning("Tried unsuccessfully to make uniform "
                                           "polar mapfield periodic: {0:g}"
@@ -298,7 +301,9 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
                 if len(clist[0]) > 2:
                     clist[0][2] = np.concatenate([clist[0][2],
                                                   [clist[0][2][0] + 2 * np.pi]])
-            mfld_dat = np.concatenate([mfld_dat, mfld_dat[0:1, :]], axis=0)
+            _, dphi = _get_axinds(mfld, 'lon')
+            mfld_dat = np.concatenate([mfld_dat, mfld_dat.take([0], axis=dphi)],
+                                      axis=dphi)
 
     crds = wrap_crds(mfld.crds.crdtype, clist, dtype=mfld.crds.dtype)
     ctx = dict(crds=crds)
@@ -342,6 +347,8 @@ def pts2polar_mapfield(pts, pts_axes, pts_unit='deg', hemisphere='north'):
     hemisphere = hemisphere.strip().lower()
 
     pts = np.array(pts)
+    if pts.dtype.kind != 'f':
+        pts = pts.astype('f8')
     pts_axes = list(pts_axes)
 
     # convert pts to lat/lon
@@ -379,6 +386,8 @@ def pts2polar_mapfield(pts, pts_axes, pts_unit='deg', hemisphere='north'):
 def _as_3xN(arr, d=3):
     """return a copy of arr as a 3xN array"""
     arr = np.array(arr)
+    if arr.dtype.kind != 'f':
+        arr = arr.astype('f8')
     was_single_point = arr.shape == (d, )
     arr = arr.reshape((d, -1))
     return arr, was_single_point
@@ -400,7 +409,7 @@ def cart2sph(arr, deg=False):
     ret[1, :] = np.arccos(arr[2, :] / ret[0, :])
     ret[2, :] = np.arctan2(arr[1, :], arr[0, :])
     if deg:
-        arr[1:] *= 180.0 / np.pi
+        ret[1:] *= 180.0 / np.pi
     if was_single_point:
         return ret[:, 0]
     else:
@@ -507,6 +516,8 @@ def great_circle(p1, p2, origin=(0, 0, 0), n=32):
         pole = np.array([0, -1, 0])
         if np.isclose(np.linalg.norm(np.cross(pole, p1)), 0.0):
             pole = np.array([0, 0, -1])
+        # p1 must be on the equator of the pole
+        pole = pole - (np.dot(pole, p1) / np.dot(p1, p1)) * p1
 
     matBtoA = viscid.a2b_rot([0, 0, 1], pole, new_x=p1)
 
-- 
2.43.0


From d45e37a9ea3ee65154a610bedf48615009f36c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 28/54] fix: datasets: setting a time by date, deferred steps,
 removal of steps, lists of times, steps at equal times, units of times, ends
 of selections

---
 viscid/dataset.py   | 58 ++++++++++++++++++++++++++++-----------------
 viscid/sliceutil.py | 45 ++++++++++++++++++++++-------------
 viscid/tree.py      |  4 ++--
 3 files changed, 67 insertions(+), 40 deletions(-)

diff --git a/viscid/dataset.py b/viscid/dataset.py
index 3dfd009..6770eb1 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -240,6 +240,11 @@ class Dataset(tree.Node):
             child.remove_all_items()
         self.children = Bucket(ordered=True)
 
+    def _resolve_active_child(self):
+        if self.active_child is not None:
+            self.active_child = self.active_child.resolve()
+        return self.active_child
+
     def activate(self, child_handle):
         """ it may not look like it, but this will recursively look
         in my active child for the handle because it uses getitem """
@@ -334,7 +339,7 @@ class Dataset(tree.Node):
     def iter_fields(self, time=None, fld_names=None):
         """ generator for fields in the active dataset,
         this will recurse down to a grid """
-        child = self.active_child
+        child = self._resolve_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -345,7 +350,7 @@ class Dataset(tree.Node):
     def iter_field_items(self, time=None, fld_names=None):
         """ generator for (name, field) in the active dataset,
         this will recurse down to a grid """
-        child = self.active_child
+        child = self._resolve_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -355,7 +360,7 @@ class Dataset(tree.Node):
 
     def field_dict(self, time=None, fld_names=None, **kwargs):
         """ fields as dict of {name: field} """
-        child = self.active_child
+        child = self._resolve_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -386,7 +391,7 @@ class Dataset(tree.Node):
 
     def get_field(self, fldname, time=None, slc=Ellipsis):
         """ recurse down active children to get a field """
-        child = self.active_child
+        child = self._resolve_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -396,7 +401,7 @@ class Dataset(tree.Node):
 
     def get_grid(self, time=None):
         """ recurse down active children to get a field """
-        child = self.active_child.resolve()
+        child = self._resolve_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -414,7 +419,7 @@ class Dataset(tree.Node):
         if item in self.children:
             return self.get_child(item)
         elif self.active_child is not None:
-            return self.active_child[item]
+            return self._resolve_active_child()[item]
         else:
             raise KeyError()
 
@@ -437,8 +442,8 @@ class Dataset(tree.Node):
         if item in self.children:
             return True
         # FIXME: this might cause a bug somewhere someday
-        if item in self.active_child:
-            return True
+        if self.active_child is not None:
+            return item in self._resolve_active_child()
         return False
 
     def __enter__(self):
@@ -571,10 +576,9 @@ class DatasetTemporal(Dataset):
             # read have only contained one Grid / AMRGrid. Without get_grid()
             # here, the context manager will unload the file when done, but
             # that's not what we wanted here, we wanted to just clear caches
+            what = child[1].resolve()
             if resolved:
-                what = child[1].resolve().get_grid()
-            else:
-                what = child[1]
+                what = what.get_grid()
 
             with what as target:
                 yield target
@@ -643,7 +647,7 @@ class DatasetTemporal(Dataset):
         if time is not None:
             child = self.get_child(time)
         else:
-            child = self.active_child
+            child = self._resolve_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -657,7 +661,7 @@ class DatasetTemporal(Dataset):
         if time is not None:
             child = self.get_child(time)
         else:
-            child = self.active_child
+            child = self._resolve_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -670,7 +674,7 @@ class DatasetTemporal(Dataset):
         if time is not None:
             child = self.get_child(time)
         else:
-            child = self.active_child
+            child = self._resolve_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -696,7 +700,7 @@ class DatasetTemporal(Dataset):
         if time is not None:
             child = self.get_child(time)
         else:
-            child = self.active_child
+            child = self._resolve_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -709,7 +713,7 @@ class DatasetTemporal(Dataset):
         if time is not None:
             child = self.get_child(time)
         else:
-            child = self.active_child.resolve()
+            child = self._resolve_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -720,11 +724,19 @@ class DatasetTemporal(Dataset):
     def get_child(self, item):
         """ if item is an int and < len(children), it is an index in a list,
         else I will find the cloest time to float(item) """
-        # print(">> get_child:", item)
-        # print(">> slice is:", self._slice_time(item))
-        # always just return the first slice's child... is this wrong?
-        child = self.children[self._slice_time(item)][1].resolve()
-        return child
+        return self.children[self._first_index(item)][1].resolve()
+
+    def _first_index(self, item):
+        # always just use the first slice's child... is this wrong?
+        inds = np.arange(len(self.children))[self._slice_time(item)]
+        return np.asarray(inds).reshape(-1)[0]
+
+    def __delitem__(self, item):
+        _, child = self.children.pop(self._first_index(item))
+        self.tear_down_child(child)
+        child.clear_cache()
+        if child is self.active_child:
+            self.active_child = None
 
     def __contains__(self, item):
         if isinstance(item, int) and item > 0 and item < len(self.children):
@@ -738,7 +750,9 @@ class DatasetTemporal(Dataset):
                     return False
             except ValueError:
                 pass
-        return item in self.active_child
+        if self.active_child is None:
+            return False
+        return item in self._resolve_active_child()
 
     def iter_resolved_children(self):
         return (child[1].resolve() for child in self.children)
diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index a7c79eb..a891b25 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -118,7 +118,8 @@ def raw_sel2sel_list(sel):
         if isinstance(s, np.ndarray):
             is_valid_dtype = (np.issubdtype(s.dtype, np.integer)
                               or np.issubdtype(s.dtype, np.complexfloating)
-                              or np.issubdtype(s.dtype, np.bool_))
+                              or np.issubdtype(s.dtype, np.bool_)
+                              or np.issubdtype(s.dtype, np.datetime64))
             if not is_valid_dtype:
                 if s.dtype == np.object:
                     raise IndexError("Slice interpreted as slice-by-array of "
@@ -357,9 +358,11 @@ def standardize_value(sel, bool_argwhere=False):
         _warn_deprecated_float(sel)
         sel = 1j * sel
     elif isinstance(sel, (list, np.ndarray)):
+        sel = np.asarray(sel)
         assert len(sel.shape) == 1
         assert isinstance(sel[0], (int, bool, np.integer, np.complex,
-                                   np.complexfloating, np.bool_))
+                                   np.complexfloating, np.bool_,
+                                   np.datetime64))
         if bool_argwhere and isinstance(sel[0], (bool, np.bool_)):
             sel = np.argwhere(sel).reshape(-1)
     elif sel in (np.newaxis, None, True, False, Ellipsis):
@@ -509,7 +512,7 @@ def std_sel2index(std_sel, crd_arr, val_endpoint=True, interior=False,
             and not isinstance(std_sel.start, (np.datetime64, np.timedelta64))):
             ustart = std_sel.start
         else:
-            ustart, tol = _unify_sbv_types(std_sel.start, crd_arr, tdunit='s',
+            ustart, tol = _unify_sbv_types(std_sel.start, crd_arr, tdunit=tdunit,
                                            epoch=epoch)
             start_val = ustart
             diff = crd_arr - ustart + (tol * sgn)
@@ -530,14 +533,17 @@ def std_sel2index(std_sel, crd_arr, val_endpoint=True, interior=False,
                     # nice with make_fwd_slice, but in this
                     # case, the slice will have no data, so...
                     return slice(0, 0, ustep)
-            else:
+            elif ustep > 0:
                 ustart = np.argmin(np.abs(diff))
+            else:
+                # the last one if several elements have the same value
+                ustart = len(crd_arr) - 1 - np.argmin(np.abs(diff)[::-1])
 
         if (isinstance(std_sel.stop, (int, np.integer, type(None)))
             and not isinstance(std_sel.stop, (np.datetime64, np.timedelta64))):
             ustop = std_sel.stop
         else:
-            ustop, tol = _unify_sbv_types(std_sel.stop, crd_arr, tdunit='s',
+            ustop, tol = _unify_sbv_types(std_sel.stop, crd_arr, tdunit=tdunit,
                                           epoch=epoch)
             stop_val = ustop
             diff = crd_arr - ustop - (tol * sgn)
@@ -553,7 +559,8 @@ def std_sel2index(std_sel, crd_arr, val_endpoint=True, interior=False,
                     # stop value is past the wong end of the array
                     ustop = 0
                 else:
-                    ustop = int(np.argmin(np.abs(diff)))
+                    # the last one if several elements have the same value
+                    ustop = len(crd_arr) - 1 - int(np.argmin(np.abs(diff)[::-1]))
                     if val_endpoint:
                         ustop += 1
             else:
@@ -578,7 +585,7 @@ def std_sel2index(std_sel, crd_arr, val_endpoint=True, interior=False,
 
     else:
         # slice by single value or ndarray of single values (int, float, times)
-        usel, _ = _unify_sbv_types(std_sel, crd_arr, tdunit='s', epoch=epoch)
+        usel, _ = _unify_sbv_types(std_sel, crd_arr, tdunit=tdunit, epoch=epoch)
         if (isinstance(usel, (int, np.integer, type(None)))
             and not isinstance(usel, (np.datetime64, np.timedelta64))):
             idx = usel
@@ -781,19 +788,20 @@ def sel2values(arr, sel, epoch=None, tdunit='s'):
     std_sel = standardize_sel(sel)
 
     if isinstance(std_sel, slice):
+        fwd = std_sel.step is None or std_sel.step > 0
         if std_sel.start is None or hasattr(std_sel.start, '__index__'):
             if arr is None:
-                if std_sel.start is None and std_sel.step > 0:
+                if std_sel.start is None and fwd:
                     ustart = -np.inf
-                elif std_sel.start is None and std_sel.step < 0:
+                elif std_sel.start is None:
                     ustart = np.inf
                 else:
                     ustart = np.nan
             else:
                 if std_sel.start is None:
-                    idx = 0 if std_sel.step > 0 else -1
+                    idx = 0 if fwd else -1
                 else:
-                    idx = int(std_sel.start)
+                    idx = max(-len(arr), min(int(std_sel.start), len(arr) - 1))
                 ustart = arr[idx]
         else:
             ustart, _ = _unify_sbv_types(std_sel.start, arr, tdunit=tdunit,
@@ -801,17 +809,18 @@ def sel2values(arr, sel, epoch=None, tdunit='s'):
 
         if std_sel.stop is None or hasattr(std_sel.stop, '__index__'):
             if arr is None:
-                if std_sel.stop is None and std_sel.step > 0:
+                if std_sel.stop is None and fwd:
                     ustop = np.inf
-                elif std_sel.stop is None and std_sel.step < 0:
+                elif std_sel.stop is None:
                     ustop = -np.inf
                 else:
                     ustop = np.nan
             else:
                 if std_sel.stop is None:
-                    idx = -1 if std_sel.step > 0 else 0
+                    idx = -1 if fwd else 0
                 else:
-                    idx = int(std_sel.stop)
+                    # as for any slice, stop can be past the end
+                    idx = max(-len(arr), min(int(std_sel.stop), len(arr) - 1))
                 ustop = arr[idx]
         else:
             ustop, _ = _unify_sbv_types(std_sel.stop, arr, tdunit=tdunit,
@@ -819,8 +828,12 @@ def sel2values(arr, sel, epoch=None, tdunit='s'):
 
         ret = (ustart, ustop)
     else:
-        if std_sel in (None, np.newaxis):
+        if std_sel is None:
             ret = (-np.inf, np.inf)
+        elif isinstance(std_sel, np.ndarray):
+            ends = [sel2values(arr, s, epoch=epoch, tdunit=tdunit)[0]
+                    for s in std_sel]
+            ret = (min(ends), max(ends))
         elif hasattr(std_sel, "__index__"):
             if arr is None:
                 ret = (np.nan, np.nan)
diff --git a/viscid/tree.py b/viscid/tree.py
index 5ba358b..63b360e 100644
--- a/viscid/tree.py
+++ b/viscid/tree.py
@@ -232,11 +232,11 @@ class Node(object):
     @time.setter
     def time(self, val):
         if viscid.is_datetime_like(val):
-            val = viscid.as_timedelta(self.basetime - viscid.as_datetime64(val))
+            val = viscid.as_timedelta(viscid.as_datetime64(val) - self.basetime)
             val = val.total_seconds()
         elif viscid.is_timedelta_like(val, conservative=True):
             val = viscid.as_timedelta(val).total_seconds()
-        elif val is not None:
+        if val is not None:
             self.set_info('time', float(val))
 
     def time_as_timedelta64(self):
-- 
2.43.0


From 92060ea3a87773cfb57c0508d9e6e256b558bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 29/54] fix: pool map: timeouts under a second were taken as no
 time at all

---
 viscid/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/parallel.py b/viscid/parallel.py
index b5b2a06..1f2e06c 100644
--- a/viscid/parallel.py
+++ b/viscid/parallel.py
@@ -224,7 +224,7 @@ def map(nr_procs, func, args_iter, args_kw=None, timeout=1e8,
     else:
         p, r = map_async(nr_procs, func, args_iter, args_kw=args_kw,
                          daemonic=daemonic, threads=threads, pool=pool)
-        ret = r.get(int(timeout))
+        ret = r.get(timeout)
         # in principle this join should return almost immediately since
         # we already called r.get; a given pool is not closed, so it can't
         # be joined
-- 
2.43.0


From c3c579d86646330446a7a7db874a84294eb8f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 30/54] fix: saving fields: vectors and fields of fewer
 dimensions in hdf5, axes kept where they are, number types and markup of
 xdmf, names with colons, lengths of npz arrays

---
 viscid/readers/hdf5.py         | 47 ++++++++++++++++++++++++----------
 viscid/readers/numpy_binary.py | 11 +++++---
 viscid/readers/xdmf.py         | 10 ++++++--
 3 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/viscid/readers/hdf5.py b/viscid/readers/hdf5.py
index 3e72c2d..4adefa2 100755
--- a/viscid/readers/hdf5.py
+++ b/viscid/readers/hdf5.py
@@ -1,5 +1,6 @@
 from __future__ import print_function
 import os
+from xml.sax.saxutils import escape
 
 import numpy as np
 
@@ -171,6 +172,8 @@ class FileHDF5(vfile.VFile):
                    "face": "/flds_fc",
                    "edge": "/flds_ec"}
 
+    _XDMF_NUMBER_TYPES = {"f": "Float", "i": "Int", "u": "UInt", "b": "UChar"}
+
     _XDMF_TEMPLATE_BEGIN = """<?xml version='1.0' ?>
 <Xdmf xmlns:xi='http://www.w3.org/2001/XInclude' Version='2.0'>
 <Domain>
@@ -228,7 +231,7 @@ class FileHDF5(vfile.VFile):
                     compression_opts=None, **kwargs):
         """ save some fields using the format given by the class """
         # FIXME: this is only good for writing cartesian rectilnear flds
-        # FIXME: axes are renamed if flds[0] is 1D or 2D
+        # FIXME: axes are renamed if flds[0] has axes other than x, y, and z
         assert len(flds) > 0
         fname = os.path.expanduser(os.path.expandvars(fname))
 
@@ -250,10 +253,28 @@ class FileHDF5(vfile.VFile):
         clist = fld0.crds.get_clist(full_arrays=True)
         crd_arrs = [np.array([0.0])] * 3
         crd_names = ["x", "y", "z"]
-        for i, c in enumerate(clist):
+        axes = [c[0] for c in clist]
+        if set(axes) <= set(crd_names):
+            crd_inds = [crd_names.index(axis) for axis in axes]
+        else:
+            crd_inds = list(range(len(axes)))
+        for i, c in zip(crd_inds, clist):
             crd_arrs[i] = c[1]
         crd_shape = [len(arr) for arr in crd_arrs]
-        time = fld0.time
+        time = fld0.time if fld0.time is not None else 0.0
+
+        # arrays as they go into the file; xdmf files use kji ordering, and
+        # the components of a vector come last
+        fld_arrs = OrderedDict()
+        for name, fld in flds.items():
+            shape = [1, 1, 1]
+            for i, n in zip(crd_inds, fld.sshape):
+                shape[i] = n
+            if fld.nr_comps:
+                arr = fld.as_flat().data.reshape([fld.nr_comps] + shape)
+            else:
+                arr = fld.data.reshape(shape)
+            fld_arrs[name] = arr.T
 
         # write arrays to the hdf5 file
         with h5py.File(fname, 'w') as f:
@@ -267,12 +288,12 @@ class FileHDF5(vfile.VFile):
 
             for name, fld in flds.items():
                 loc = cls._FLD_GROUPS[fld.center.lower()] + '/' + name
-                # xdmf files use kji ordering
                 if do_compression:
-                    f.create_dataset(loc, data=fld.data.T, compression=compression,
+                    f.create_dataset(loc, data=fld_arrs[name],
+                                     compression=compression,
                                      compression_opts=compression_opts)
                 else:
-                    f[loc] = fld.data.T
+                    f[loc] = fld_arrs[name]
 
             # big bad openggcm time_str hack to put basetime into hdf5 file
             for fld in flds.values():
@@ -292,7 +313,7 @@ class FileHDF5(vfile.VFile):
 
         # now write an xdmf file
         xdmf_fname = os.path.splitext(fname)[0] + ".xdmf"
-        relh5fname = "./" + os.path.basename(fname)
+        relh5fname = escape("./" + os.path.basename(fname))
         with open(xdmf_fname, 'w') as f:
             xloc = cls._CRDS_GROUP + '/' + crd_names[0]
             yloc = cls._CRDS_GROUP + '/' + crd_names[1]
@@ -313,16 +334,16 @@ class FileHDF5(vfile.VFile):
                     break
 
             for name, fld in flds.items():
-                fld = fld.as_flat().T
-                dt = fld.dtype.name.rstrip("0123456789").title()
-                precision = fld.dtype.itemsize
-                fld_dim_str = " ".join([str(l) for l in fld.shape])
+                arr = fld_arrs[name]
+                dt = cls._XDMF_NUMBER_TYPES.get(arr.dtype.kind, 'Float')
+                precision = arr.dtype.itemsize
+                fld_dim_str = " ".join([str(l) for l in arr.shape])
                 loc = cls._FLD_GROUPS[fld.center.lower()] + '/' + name
                 s = cls._XDMF_TEMPLATE_ATTRIBUTE.format(
-                    fld_name=name,
+                    fld_name=escape(name, {'"': '&quot;'}),
                     fld_type=fld.fldtype, center=fld.center.title(),
                     dtype=dt, precision=precision, fld_dims=fld_dim_str,
-                    h5fname=relh5fname, fld_loc=loc)
+                    h5fname=relh5fname, fld_loc=escape(loc))
                 f.write(s)
 
             f.write(cls._XDMF_TEMPLATE_GRID_END)
diff --git a/viscid/readers/numpy_binary.py b/viscid/readers/numpy_binary.py
index 0c65091..6330815 100644
--- a/viscid/readers/numpy_binary.py
+++ b/viscid/readers/numpy_binary.py
@@ -67,8 +67,8 @@ class NPZDataWrapper(vfile.DataWrapper):
     def read_direct(self, *args, **kwargs):
         raise NotImplementedError()
 
-    def len(self):
-        return self.wrap_func("len")
+    def __len__(self):
+        return self.shape[0]
 
     def __getitem__(self, item):
         return self.wrap_func("__getitem__", item)
@@ -185,7 +185,12 @@ class FileNumpyNPZ(vfile.VFile):
 
         for name, fld in flds.items():
             fld_names[fld.center.lower()].append(name)
-            fld_dict[name] = fld.data
+            dat = fld.data
+            if fld.nr_comps and dat.shape[1:] == dat.shape[:-1]:
+                # the shape can't tell one layout from the other, in this
+                # case flat is what is assumed by the reader
+                dat = fld.as_flat().data
+            fld_dict[name] = dat
 
         for center, names_lst in fld_names.items():
             fld_dict[cls._KEY_FLDS[center.lower()]] = np.array(names_lst)
diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index a9d9255..9d78449 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -3,6 +3,7 @@
 
 from __future__ import print_function
 import os
+import re
 import sys
 # from xml.etree import ElementTree
 
@@ -413,7 +414,8 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
         center = attrs["Center"]
         fldtype = attrs["AttributeType"]
         fld = self._make_field(parent_node, fldtype, name, crds, data,
-                               center=center, time=time, zyx_native=True)
+                               center=center, time=time, zyx_native=True,
+                               _src_layout="interlaced")
         self._inject_info(item, fld)
 
         return fld
@@ -440,7 +442,11 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             return arr, attrs
 
         if fmt == "HDF":
-            fname, loc = item.text.strip().split(':')
+            # the path in the hdf5 file usually starts with a '/', names on
+            # either side of it could have a ':' of their own
+            text = item.text.strip()
+            m = re.match(r"(.*?):(/.*)$", text)
+            fname, loc = m.groups() if m else text.rsplit(':', 1)
 
             # FIXME: startswith '/' is unix path name specific
             if self.h5_root_dir is not None:
-- 
2.43.0


From 92f0454e00d9ffd5e76b89e04354b2180aadf0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 31/54] fix: readers: shared topology, lists of times and
 repeated includes of xdmf, grouped files emptied by get_times, athena times
 and single cells, gkeyll pressures and structured grids, single rows of text
 files, integer times, grid_opts

---
 viscid/compat/_xdmf_include.py |  3 +++
 viscid/dataset.py              | 13 +++++++++----
 viscid/readers/ascii.py        |  4 ++--
 viscid/readers/athena.py       |  2 +-
 viscid/readers/athena_bin.py   |  5 +++--
 viscid/readers/athena_hst.py   |  2 +-
 viscid/readers/athena_tab.py   |  5 +++--
 viscid/readers/athena_xdmf.py  |  5 ++---
 viscid/readers/gkeyll.py       | 17 +++++++----------
 viscid/readers/vfile.py        |  2 +-
 viscid/readers/xdmf.py         | 19 ++++++++++++++-----
 11 files changed, 46 insertions(+), 31 deletions(-)

diff --git a/viscid/compat/_xdmf_include.py b/viscid/compat/_xdmf_include.py
index 2217ce9..86542d2 100644
--- a/viscid/compat/_xdmf_include.py
+++ b/viscid/compat/_xdmf_include.py
@@ -79,6 +79,7 @@ def include(elem, loader=None, base_url="./", _parent_hrefs=None):
                 node = loader(href, parse, e)
 
                 if node is None:
+                    _parent_hrefs.discard(href)
                     logger.debug("XInclude: File '{0}' not found".format(href))
                     del elem[i]
                     continue
@@ -101,6 +102,8 @@ def include(elem, loader=None, base_url="./", _parent_hrefs=None):
 
                 # recursively look for xincludes in the included element
                 include(node, loader, href, _parent_hrefs)
+                # only a file that's included by itself is recursive
+                _parent_hrefs.discard(href)
 
                 if e.tail:
                     node.tail = (node.tail or "") + e.tail
diff --git a/viscid/dataset.py b/viscid/dataset.py
index 6770eb1..fbbf31e 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -533,6 +533,8 @@ class DatasetTemporal(Dataset):
             list of slices (containing integers only) or ints
         """
         times = np.array([child[0] for child in self.children])
+        if times.dtype.kind in 'iu':
+            times = times.astype('f8')
 
         try:
             basetime = self.basetime
@@ -578,10 +580,13 @@ class DatasetTemporal(Dataset):
             # that's not what we wanted here, we wanted to just clear caches
             what = child[1].resolve()
             if resolved:
-                what = what.get_grid()
-
-            with what as target:
-                yield target
+                with what.get_grid() as target:
+                    yield target
+            else:
+                try:
+                    yield what
+                finally:
+                    what.clear_cache()
 
     def get_times(self, sel=slice(None), val_endpoint=True, interior=False,
                   tdunit='s', tol=100):
diff --git a/viscid/readers/ascii.py b/viscid/readers/ascii.py
index 474a25d..4ef1e2f 100644
--- a/viscid/readers/ascii.py
+++ b/viscid/readers/ascii.py
@@ -28,7 +28,7 @@ class FileASCII(vfile.VFile):  # pylint: disable=W0223
     def _parse(self):
         g = self._make_grid(self)
 
-        arr = np.loadtxt(self.fname)
+        arr = np.loadtxt(self.fname, ndmin=2)
         crds = coordinate.wrap_crds("nonuniform_cartesian", [['x', arr[:, 0]]])
         g.set_crds(crds)
 
@@ -82,7 +82,7 @@ class FileNDASCII(vfile.VFile):  # pylint: disable=W0223
                 fld_dat = np.fromstring(fin.readline().strip(), sep=' ',
                                         dtype=fld_dtype)
                 fld = self._make_field(g, "Scalar", fld_name, crds,
-                                       fld_dat)
+                                       fld_dat.reshape(crds.shape_nc))
                 g.add_field(fld)
 
         self.add(g)
diff --git a/viscid/readers/athena.py b/viscid/readers/athena.py
index 08684e0..e27829a 100644
--- a/viscid/readers/athena.py
+++ b/viscid/readers/athena.py
@@ -117,7 +117,7 @@ class AthenaGrid(grid.Grid):
             f = self['V3']
         except KeyError:
             f = self['M3'] / self['d']
-        f.name = "bz"
+        f.name = "vz"
         f.pretty_name = "$V_z$"
         return f
 
diff --git a/viscid/readers/athena_bin.py b/viscid/readers/athena_bin.py
index 3f9a2a8..5756223 100644
--- a/viscid/readers/athena_bin.py
+++ b/viscid/readers/athena_bin.py
@@ -375,12 +375,13 @@ class AthenaBinDataWrapper(vfile.DataWrapper):
 
     @property
     def dtype(self):
-        return self.file_wrapper.float_dtype
+        # data is native endian once it's been read
+        return self.file_wrapper.float_dtype.newbyteorder('=')
 
     def __array__(self, *args, **kwargs):
         with self.file_wrapper as f:
             arr = f.read_field(self.fld_number).reshape(self.expected_shape)
-        return arr.astype(self.dtype)
+        return arr
 
     def read_direct(self, *args, **kwargs):
         return self.__array__()
diff --git a/viscid/readers/athena_hst.py b/viscid/readers/athena_hst.py
index a5f4a49..bf4758b 100644
--- a/viscid/readers/athena_hst.py
+++ b/viscid/readers/athena_hst.py
@@ -31,7 +31,7 @@ class AthenaHstFile(vfile.VFile):  # pylint: disable=abstract-method
             fld_names = [fn.strip() for fn in fld_names]
 
         # crds here are really times
-        dat = np.loadtxt(self.fname, unpack=True)
+        dat = np.loadtxt(self.fname, unpack=True, ndmin=2)
         t = dat[0]
         crds = coordinate.wrap_crds("nonuniform_cartesian", [('t', t)])
 
diff --git a/viscid/readers/athena_tab.py b/viscid/readers/athena_tab.py
index af7f3e4..1fb758f 100644
--- a/viscid/readers/athena_tab.py
+++ b/viscid/readers/athena_tab.py
@@ -126,7 +126,7 @@ class AthenaTabFile(athena.AthenaFile, ContainerFile):  # pylint: disable=abstra
                 if line.startswith('Nx'):
                     dims.append(int(line.split('=')[1]))
                 if "Time" in line:
-                    t = re.search(r"Time\s*=\s*([0-9\.]+)", line).groups()[0]
+                    t = re.search(r"Time\s*=\s*([-+0-9.eE]+)", line).groups()[0]
                 # il y a level & domain for SMR outptut, but i'm ignoring them
 
                 fns = re.split(r"\[[0-9]+\]=", line)
@@ -159,7 +159,8 @@ class AthenaTabFile(athena.AthenaFile, ContainerFile):  # pylint: disable=abstra
             stop = int(np.prod(dims[:i + 1]))
             step = int(np.prod(dims[:i]))
             cc = dat[i][:stop:step]
-            dxmin = np.min([dxmin, np.min(cc[1:] - cc[:-1])])
+            if len(cc) > 1:
+                dxmin = np.min([dxmin, np.min(cc[1:] - cc[:-1])])
             assert len(cc) == dim
             cclist.append((axis, cc))
 
diff --git a/viscid/readers/athena_xdmf.py b/viscid/readers/athena_xdmf.py
index 7f221fc..d3e4a0a 100644
--- a/viscid/readers/athena_xdmf.py
+++ b/viscid/readers/athena_xdmf.py
@@ -44,9 +44,8 @@ class AthenaFileXDMF(athena.AthenaFile, xdmf.FileXDMF):  # pylint: disable=abstr
                                                name="AthenaXDMFTemporalCollection")
 
             for fname in self._collection:
-                grids = self._parse_file(fname, data_temporal)
-                for _grid in grids:
-                    data_temporal.add(_grid)
+                # this also adds the grids to data_temporal
+                self._parse_file(fname, data_temporal)
             data_temporal.activate(0)
             self.add(data_temporal)
             self.activate(0)
diff --git a/viscid/readers/gkeyll.py b/viscid/readers/gkeyll.py
index 3a9099b..eb957b6 100644
--- a/viscid/readers/gkeyll.py
+++ b/viscid/readers/gkeyll.py
@@ -104,13 +104,13 @@ class GkeyllGrid(grid.Grid):
         return Pxx_e
 
     def _get_Pyy_e(self):
-        Pyy_e = self['pyy_e'] - self['rhoux_e']*self['rhoux_e'] / self['rho_e']
+        Pyy_e = self['pyy_e'] - self['rhouy_e']*self['rhouy_e'] / self['rho_e']
         Pyy_e.name = 'Pyy_e'
         Pyy_e.pretty_name = r'$P_{yy,e}$'
         return Pyy_e
 
     def _get_Pzz_e(self):
-        Pzz_e = self['pzz_e'] - self['rhoux_e']*self['rhoux_e'] / self['rho_e']
+        Pzz_e = self['pzz_e'] - self['rhouz_e']*self['rhouz_e'] / self['rho_e']
         Pzz_e.name = 'Pzz_e'
         Pzz_e.pretty_name = r'$P_{zz,e}$'
         return Pzz_e
@@ -158,13 +158,13 @@ class GkeyllGrid(grid.Grid):
         return Pxx_i
 
     def _get_Pyy_i(self):
-        Pyy_i = self['pyy_i'] - self['rhoux_i']*self['rhoux_i'] / self['rho_i']
+        Pyy_i = self['pyy_i'] - self['rhouy_i']*self['rhouy_i'] / self['rho_i']
         Pyy_i.name = 'Pyy_i'
         Pyy_i.pretty_name = r'$P_{yy,i}$'
         return Pyy_i
 
     def _get_Pzz_i(self):
-        Pzz_i = self['pzz_i'] - self['rhoux_i']*self['rhoux_i'] / self['rho_i']
+        Pzz_i = self['pzz_i'] - self['rhouz_i']*self['rhouz_i'] / self['rho_i']
         Pzz_i.name = 'Pzz_i'
         Pzz_i.pretty_name = r'$P_{zz,i}$'
         return Pzz_i
@@ -415,12 +415,9 @@ class GkeyllFile(FileHDF5, ContainerFile):  # pylint: disable=abstract-method
             crd_arr = h5file['StructGrid/axis%d'%idx][:]
             return crd_arr
         elif gridType in ['structured']:
-            if idx == 0:
-                crd_arr = h5file['StructGrid'][:, 0, 0, 0]
-            elif idx == 1:
-                crd_arr = h5file['StructGrid'][0, :, 0, 1]
-            elif idx == 2:
-                crd_arr = h5file['StructGrid'][0, 0, :, 2]
+            sel = [0] * nr_crds + [idx]
+            sel[idx] = slice(None)
+            crd_arr = h5file['StructGrid'][tuple(sel)]
             return crd_arr
         else:
             raise RuntimeError("Gkeyll StructGrid.vsKind not understood: {0}"
diff --git a/viscid/readers/vfile.py b/viscid/readers/vfile.py
index f5ab7dc..37a16d2 100644
--- a/viscid/readers/vfile.py
+++ b/viscid/readers/vfile.py
@@ -105,7 +105,7 @@ class VFile(Dataset):
         if grid_type is not None:
             self._grid_type = grid_type
         if grid_opts is not None:
-            self.grid_opts = grid_opts
+            self._grid_opts = grid_opts
         assert isinstance(self._grid_opts, dict)
 
         self.parent_bucket = parent_bucket
diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index 9d78449..a8a6747 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -144,7 +144,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
         topoattrs = None
         if topology is not None:
             topoattrs = self._fill_attrs(topology)
-        elif parent_node and parent_node.topology_info:
+        elif parent_node is not None and parent_node.topology_info:
             topoattrs = parent_node.topology_info
 
         # parse geometry, or cascade parent grid's geometry
@@ -152,7 +152,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
         geoattrs = None
         if geometry is not None:
             crds, geoattrs = self._parse_geometry(geometry, topoattrs)
-        elif parent_node and parent_node.geometry_info:
+        elif parent_node is not None and parent_node.geometry_info:
             geoattrs = parent_node.geometry_info
             crds = parent_node.crds  # this can be None and that's ok
 
@@ -184,10 +184,16 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             else:
                 logger.warning("Unknown collection type %s, ignoring grid", ct)
 
+            if grd is not None:
+                # so that children can cascade these
+                grd.topology_info = topoattrs
+                grd.geometry_info = geoattrs
+                grd.crds = crds
+
             for i, subgrid in enumerate(el.findall("./Grid")):
                 t = times[i] if (times is not None and i < len(times)) else time
                 # print(subgrid, grd, t)
-                self._parse_grid(subgrid, parent_node=grd, time=time)
+                self._parse_grid(subgrid, parent_node=grd, time=t)
             if len(grd.children) > 0:
                 grd.activate(0)
 
@@ -228,7 +234,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
                 grd.topology_info = topoattrs
             if geoattrs is not None:
                 grd.geometry_info = geoattrs
-            if crds is not None:
+            if crds is not None and gt == "Uniform":
                 grd.set_crds(crds)
 
             # EXPERIMENTAL AMR support, _last_amr_grid shouldn't be an attribute
@@ -334,6 +340,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             # website says it should be XYZ, BUT, the file opens correctly
             # in Paraview with zyx, so... I guess i need to do this [::-1]
             # nonsense here
+            data_o, data_dx = np.asarray(data_o), np.asarray(data_dx)
             data_o, data_dx, n = data_o[::-1], data_dx[::-1], n[::-1]
             crdlist = [None] * 3
             for i, crd in enumerate(['x', 'y', 'z']):
@@ -472,7 +479,8 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
         if timetype == 'Single':
             return float(timetag.get('Value')), attrs
         elif timetype == 'List':
-            return self._parse_dataitem(timetag.find('.//DataItem'))[0], attrs
+            times, _ = self._parse_dataitem(timetag.find('.//DataItem'))
+            return np.asarray(times).reshape(-1), attrs
         elif timetype == 'Range':
             raise NotImplementedError("Time Range not yet implemented")
             # dat, dattrs = self._parse_dataitem(timetag.find('.//DataItem'))
@@ -486,6 +494,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             # return np.arange(dat[0], dat[1])
         elif timetype == 'HyperSlab':
             dat, dattrs = self._parse_dataitem(timetag.find('.//DataItem'))
+            dat = np.asarray(dat).reshape(-1)
             arr = np.array([dat[0] + i * dat[1] for i in range(int(dat[2]))])
             return arr, attrs
         else:
-- 
2.43.0


From f5a5e328c0450c5955ceee7671cb14595b3d2d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:04 +0000
Subject: [PATCH 32/54] fix: jrrle files cut short or damaged raise an error,
 reading a field twice works

A damaged record could write outside of the arrays of the decoder or
return uninitialised memory as data. fseek leaves what formatted reads have
buffered, so a field after a seek was often not found. Opening a file that
does not exist created it.
---
 viscid/readers/_fortfile.F90 |  2 +
 viscid/readers/_jrrle.f90    | 92 +++++++++++++++++++++++-------------
 viscid/readers/ggcm_jrrle.py | 11 ++++-
 3 files changed, 72 insertions(+), 33 deletions(-)

diff --git a/viscid/readers/_fortfile.F90 b/viscid/readers/_fortfile.F90
index 5458915..bac9f43 100644
--- a/viscid/readers/_fortfile.F90
+++ b/viscid/readers/_fortfile.F90
@@ -18,6 +18,8 @@
     status = -1
 
 #ifdef HAVE_FSEEK
+    ! fseek doesn't discard what formatted reads have buffered
+    if (whence.eq.0) rewind(unit)
     call fseek(unit,offset,whence,status)
 #else
     read(unit,'()',ADVANCE='NO',POS=offset,IOSTAT=status)
diff --git a/viscid/readers/_jrrle.f90 b/viscid/readers/_jrrle.f90
index 96ee2ce..f078f06 100644
--- a/viscid/readers/_jrrle.f90
+++ b/viscid/readers/_jrrle.f90
@@ -22,25 +22,25 @@ subroutine inquire_next(found_field,IU,ndim,nx,ny,nz,it,varname,tstring)
   do while(.true.)
      read(IU,'(A)',end=888,err=888) buff
      if(buff.eq.'FIELD-1D-1')then
-        found_field=1
         ndim=1
-        read(IU,'(A)') varname
-        read(IU,'(A)') tstring
-        read(IU,*)it,nx
+        read(IU,'(A)',end=888,err=888) varname
+        read(IU,'(A)',end=888,err=888) tstring
+        read(IU,*,end=888,err=888)it,nx
+        found_field=1
         exit
      elseif(buff.eq.'FIELD-2D-1')then
-        found_field=1
         ndim=2
-        read(IU,'(A)') varname
-        read(IU,'(A)') tstring
-        read(IU,*)it,nx,ny
+        read(IU,'(A)',end=888,err=888) varname
+        read(IU,'(A)',end=888,err=888) tstring
+        read(IU,*,end=888,err=888)it,nx,ny
+        found_field=1
         exit
      elseif(buff.eq.'FIELD-3D-1')then
-        found_field=1
         ndim=3
-        read(IU,'(A)') varname
-        read(IU,'(A)') tstring
-        read(IU,*)it,nx,ny,nz
+        read(IU,'(A)',end=888,err=888) varname
+        read(IU,'(A)',end=888,err=888) tstring
+        read(IU,*,end=888,err=888)it,nx,ny,nz
+        found_field=1
         exit
      endif
   enddo
@@ -82,6 +82,7 @@ subroutine read_jrrle1d(iu,a1,nx,l1,read_ascii,success)
 
   nn = nx
   rid=0.0
+  success=0
   if((iu.lt.0).or.(iu.gt.32768))then
      write(0,*)'Exception: Ambiguous I/O unit number.'
      return
@@ -93,24 +94,27 @@ subroutine read_jrrle1d(iu,a1,nx,l1,read_ascii,success)
 100 continue
   read(iu,1000,end=190,err=190) rec
   if(rec(1:10).eq.'FIELD-1D-1') then
-     read(iu,1000,end=190) rec
+     read(iu,1000,end=190,err=190) rec
      if((l1(1:m).ne.rec(1:m))) goto 100
      l1=rec
-     read(iu,1000,end=190) rec
-     read(iu,*,end=190)it,nn
+     read(iu,1000,end=190,err=190) rec
+     read(iu,*,end=190,err=190)it,nn
+     if(nn.ne.nx) goto 190
      call rdn2(iu,a1,nn,rec,it,rid)
 
      ! see if we have fullascii
      if (read_ascii .or. nn.ne.nx) then
-       read(iu,'(a)')rec
+       read(iu,'(a)',end=180,err=180)rec
        if(rec(2:17).eq.'fullasciifollows') then
          ! write(0,*)'reading:  ',rec(2:17)
-         do i=1,nx; read(iu,*)a1(i); enddo
+         do i=1,nx; read(iu,*,end=190,err=190)a1(i); enddo
+         nn = nx
        else
          backspace(iu)
        endif
      endif
 
+180  continue
      if(nn.eq.nx)then
         success = 1
      endif
@@ -151,6 +155,7 @@ subroutine read_jrrle2d(iu,a1,nx,l1,read_ascii,success)
 
   nn = nx
   rid=0.0
+  success=0
   if((iu.lt.0).or.(iu.gt.32768))then
      write(0,*)'Exception: Ambiguous I/O unit number.'
      return
@@ -162,25 +167,28 @@ subroutine read_jrrle2d(iu,a1,nx,l1,read_ascii,success)
 100 continue
   read(iu,1000,end=190,err=190) rec
   if(rec(1:10).eq.'FIELD-2D-1') then
-     read(iu,1000,end=190) rec
+     read(iu,1000,end=190,err=190) rec
      if((l1(1:m).ne.rec(1:m))) goto 100
      l1=rec
-     read(iu,1000,end=190) rec
-     read(iu,*,end=190)it,nx1,ny1
+     read(iu,1000,end=190,err=190) rec
+     read(iu,*,end=190,err=190)it,nx1,ny1
+     if(nx1*ny1.ne.nx) goto 190
      call rdn2(iu,a1,nn,rec,it,rid)
 
     ! see if we have fullascii
     if (read_ascii .or. nn.ne.nx) then
-      read(iu,'(a)')rec
+      read(iu,'(a)',end=180,err=180)rec
       if(rec(2:17).eq.'fullasciifollows') then
         ! write(0,*)'reading:  ',rec(2:17)
-        do i=1,nx; read(iu,*)a1(i); enddo
+        do i=1,nx; read(iu,*,end=190,err=190)a1(i); enddo
+        nn = nx
       else
         backspace(iu)
       endif
     endif
 
-    if(nx1*ny1.eq.nx)then
+180  continue
+    if(nn.eq.nx)then
       success = 1
     endif
     return
@@ -221,6 +229,7 @@ subroutine read_jrrle3d(iu,a1,nx,l1,read_ascii,success)
 
   nn = nx
   rid=0.0
+  success=0
   if((iu.lt.0).or.(iu.gt.32768))then
      write(0,*)'Exception: Ambiguous I/O unit number.'
      return
@@ -232,25 +241,28 @@ subroutine read_jrrle3d(iu,a1,nx,l1,read_ascii,success)
 100 continue
   read(iu,1000,end=190,err=190) rec
   if(rec(1:10).eq.'FIELD-3D-1') then
-     read(iu,1000,end=190) rec
+     read(iu,1000,end=190,err=190) rec
      if((l1(1:m).ne.rec(1:m))) goto 100
      l1=rec
-     read(iu,1000,end=190) rec
-     read(iu,*,end=190)it,nx1,ny1,nz1
+     read(iu,1000,end=190,err=190) rec
+     read(iu,*,end=190,err=190)it,nx1,ny1,nz1
+     if(nx1*ny1*nz1.ne.nx) goto 190
      call rdn2(iu,a1,nn,rec,it,rid)
 
      ! see if we have fullascii
      if (read_ascii .or. nn.ne.nx) then
-       read(iu,'(a)')rec
+       read(iu,'(a)',end=180,err=180)rec
          if(rec(2:17).eq.'fullasciifollows') then
          ! write(0,*)'reading:  ',rec(2:17)
-         do i=1,nx; read(iu,*)a1(i); enddo
+         do i=1,nx; read(iu,*,end=190,err=190)a1(i); enddo
+         nn = nx
        else
          backspace(iu)
        endif
      endif
 
-     if((nx1*ny1*nz1.eq.nx))then
+180  continue
+     if(nn.eq.nx)then
         success = 1
      endif
      return
@@ -340,7 +352,7 @@ subroutine end0(r,m)
   !-----------------------------------------------------------
   IMPLICIT NONE
   integer i,n,m
-  character*80 r
+  character(len=*) r
 
   ! presumably m is a reasonable value to begin with...
   n = min0(m,len(r))
@@ -396,11 +408,12 @@ subroutine rdn2( fileNo,a,n,cid,it,rid )
   ! the jrrle format, so we need to assume that the value passed in as
   ! `n` is correct, or else all is lost
   if (nid.ne."********") then
-    read(nid,'(i8)') nid_asint
+    read(nid,'(i8)',err=100) nid_asint
     if (nid_asint.ne.n) then
       write(0,*)'rdn2: nid (nid_asint) .ne. n ', nid, nid_asint, n
+      n=-2
+      return
     endif
-    n = nid_asint
   endif
 
   ! try read again, if we don't have WRN2 data
@@ -556,6 +569,11 @@ subroutine wrndec(fileNo,expandedDatOut,n)
      ! this is repeated nRep times
      j  = j + 1
      hexChar = ICHAR( asciiDat(j:j) )
+     if ( i+nRep.gt.67 ) then
+        write(0,*)'wrndec: encoded record is too long'
+        n=-5
+        return
+     endif
      do q=1,nRep
         i = i + 1
         expandedDat(i) = hexChar
@@ -564,6 +582,11 @@ subroutine wrndec(fileNo,expandedDatOut,n)
      ! otherwise it is 7 bit ascii, and apears only once
   else
      i = i + 1
+     if ( i.gt.67 ) then
+        write(0,*)'wrndec: encoded record is too long'
+        n=-5
+        return
+     endif
      expandedDat(i) = hexChar
   endif
 
@@ -575,6 +598,11 @@ subroutine wrndec(fileNo,expandedDatOut,n)
   ! error we expect field to be 64 chars if its more then this
   ! there is a problem, bail
   n=i
+  if( n.lt.0 ) then
+     ! not even a check sum and a value
+     n=-5
+     return
+  endif
   if( n.gt.63 ) then
      write(0,*)'wrndec: n gt 63, n=',n
      n=-5
diff --git a/viscid/readers/ggcm_jrrle.py b/viscid/readers/ggcm_jrrle.py
index 2e636eb..b4243ec 100644
--- a/viscid/readers/ggcm_jrrle.py
+++ b/viscid/readers/ggcm_jrrle.py
@@ -34,6 +34,12 @@ class JrrleFileWrapper(FortranFile):
         self.seen_all_fields = False
         super(JrrleFileWrapper, self).__init__(filename)
 
+    def open(self):
+        # opening with fortran creates files that don't exist
+        if not os.path.isfile(self.filename):
+            raise IOError("file '{0}' does not exist".format(self.filename))
+        super(JrrleFileWrapper, self).open()
+
     def read_field(self, fld_name, ndim):
         """Read a field given a seekable location
 
@@ -46,7 +52,10 @@ class JrrleFileWrapper(FortranFile):
         """
         meta = self.inquire(fld_name)
         arr = np.empty(meta['dims'], dtype='float32', order='F')
-        self._read_func[ndim - 1](self.unit, arr, fld_name, read_ascii)
+        success = self._read_func[ndim - 1](self.unit, arr, fld_name, read_ascii)
+        if not success:
+            raise IOError("field '{0}' in file '{1}' is damaged"
+                          "".format(fld_name, self.filename))
         return meta, arr
 
     def inquire_all_fields(self, reinquire=False):
-- 
2.43.0


From 366d96d9b5cad59cdd7a13ba6cdbd233eafda016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:00 +0000
Subject: [PATCH 33/54] fix: file registry: reloading groups and changed files,
 unloading and removing files that other files use, files that fail to load

---
 viscid/bucket.py               |  3 ++
 viscid/dataset.py              | 14 +++++---
 viscid/readers/athena_bin.py   |  5 +++
 viscid/readers/athena_tab.py   |  5 +++
 viscid/readers/gkeyll.py       |  5 +++
 viscid/readers/openggcm.py     |  6 ++++
 viscid/readers/vfile.py        | 44 +++++++++++++++++++++----
 viscid/readers/vfile_bucket.py | 59 +++++++++++++++++++++++-----------
 8 files changed, 113 insertions(+), 28 deletions(-)

diff --git a/viscid/bucket.py b/viscid/bucket.py
index cd75cb2..bf42f3d 100755
--- a/viscid/bucket.py
+++ b/viscid/bucket.py
@@ -168,6 +168,9 @@ class Bucket(object):
         if self._ref_count[hashable_item] <= 0:
             self._remove_item(item)
 
+    def nr_references(self, item):
+        return self._ref_count[self._make_hashable(item)]
+
     def remove_all_items(self):
         """ unload all items """
         self._set_empty_dicts()
diff --git a/viscid/dataset.py b/viscid/dataset.py
index fbbf31e..7d8e226 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -234,11 +234,17 @@ class Dataset(tree.Node):
         """Clear all childrens' caches"""
         self._clear_cache()
 
+    def _empty_child(self, child):
+        self.tear_down_child(child)
+        # files can be in use elsewhere, they are emptied once they're unloaded
+        if getattr(child, 'parent_bucket', None) is None:
+            child.remove_all_items()
+
     def remove_all_items(self):
         for child in self.children:
-            self.tear_down_child(child)
-            child.remove_all_items()
+            self._empty_child(child)
         self.children = Bucket(ordered=True)
+        self.active_child = None
 
     def _resolve_active_child(self):
         if self.active_child is not None:
@@ -501,9 +507,9 @@ class DatasetTemporal(Dataset):
 
     def remove_all_items(self):
         for child in self.children:
-            self.tear_down_child(child[1])
-            child[1].remove_all_items()
+            self._empty_child(child[1])
         self.children = []
+        self.active_child = None
 
     def clear_cache(self):
         """Clear all childrens' caches"""
diff --git a/viscid/readers/athena_bin.py b/viscid/readers/athena_bin.py
index 5756223..d5b4633 100644
--- a/viscid/readers/athena_bin.py
+++ b/viscid/readers/athena_bin.py
@@ -80,6 +80,11 @@ class AthenaBinFile(athena.AthenaFile, ContainerFile):  # pylint: disable=abstra
 
         super(AthenaBinFile, self).load(fname1)
 
+    def _forget(self):
+        super(AthenaBinFile, self)._forget()
+        self._crds = None
+        self._fwrapper = None
+
     def _parse(self):
         if self._crds is None:
             self._crds = self._make_crds(self._collection[0])
diff --git a/viscid/readers/athena_tab.py b/viscid/readers/athena_tab.py
index 1fb758f..3d757f3 100644
--- a/viscid/readers/athena_tab.py
+++ b/viscid/readers/athena_tab.py
@@ -54,6 +54,11 @@ class AthenaTabFile(athena.AthenaFile, ContainerFile):  # pylint: disable=abstra
 
         super(AthenaTabFile, self).load(fname1)
 
+    def _forget(self):
+        super(AthenaTabFile, self)._forget()
+        self._crds = None
+        self._fld_list = None
+
     def _parse(self):
         if self._crds is None:
             meta = self.parse_header(self._collection[0])
diff --git a/viscid/readers/gkeyll.py b/viscid/readers/gkeyll.py
index eb957b6..bacf586 100644
--- a/viscid/readers/gkeyll.py
+++ b/viscid/readers/gkeyll.py
@@ -311,6 +311,11 @@ class GkeyllFile(FileHDF5, ContainerFile):  # pylint: disable=abstract-method
 
         super(GkeyllFile, self).load(fname1)
 
+    def _forget(self):
+        super(GkeyllFile, self)._forget()
+        self._crds = None
+        self._fld_templates = None
+
     def _parse(self):
         if len(self._collection) == 1:
             # load a single file
diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index 3d2207b..aa09cd6 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -756,6 +756,12 @@ class GGCMFileFortran(GGCMFile, ContainerFile):  # pylint: disable=abstract-meth
         self.read_logfile()
         super(GGCMFileFortran, self).load(fname1)
 
+    def _forget(self):
+        super(GGCMFileFortran, self)._forget()
+        self._crds = None
+        self._fld_templates = None
+        self._fwrapper = None
+
     def _parse(self):
         # look for and parse grid2 file or whatever else needs be done
         if self._crds is None:
diff --git a/viscid/readers/vfile.py b/viscid/readers/vfile.py
index 37a16d2..36ce77e 100644
--- a/viscid/readers/vfile.py
+++ b/viscid/readers/vfile.py
@@ -87,6 +87,9 @@ class VFile(Dataset):
     parent_bucket = None
     load_time = None
     handle_name = None  # set in VFileBucket.load_files
+    # how many of the references in parent_bucket belong to files that
+    # load this one, the others are what the user loaded
+    _nr_child_refs = 0
 
     fname = None
     dirname = None
@@ -110,6 +113,13 @@ class VFile(Dataset):
 
         self.parent_bucket = parent_bucket
 
+        # the files of a group, since reloading needs more than self.fname
+        if isinstance(fname, (list, tuple)):
+            self._group = [os.path.abspath(os.path.expanduser(os.path.expandvars(fn)))
+                           for fn in fname]
+        else:
+            self._group = None
+
         self.load(fname)
 
     def load(self, fname):
@@ -122,16 +132,38 @@ class VFile(Dataset):
         self._parse()
 
     def reload(self):
-        self._clear_cache()
-        self.remove_all_items()
-        self.load(self.fname)
+        self._release()
+        self._forget()
+        self.load(self.fname if self._group is None else list(self._group))
 
     def unload(self, **kwargs):
-        """Really unload a file, don't just clear the cache"""
+        """Really unload a file, don't just clear the cache
+
+        Note:
+            Files that are part of another file (like the time steps of
+            a collection) stay in memory until that file is unloaded too.
+        """
+        bucket = self.parent_bucket
+        if bucket is not None and bucket.contains_item(self):
+            if '_ref_count' in kwargs:
+                self._nr_child_refs -= kwargs['_ref_count']
+            else:
+                kwargs['_ref_count'] = bucket.nr_references(self) - self._nr_child_refs
+            if kwargs['_ref_count'] > 0:
+                bucket.remove_reference(self, **kwargs)
+            if bucket.contains_item(self):
+                self.clear_cache()
+                return
+        self._release()
+
+    def _release(self):
+        """Let go of everything that was loaded"""
         self._clear_cache()
         self.remove_all_items()
-        if self.parent_bucket:
-            self.parent_bucket.remove_reference(self, **kwargs)
+
+    def _forget(self):
+        """Forget what was learned about the file, it may have changed"""
+        pass
 
     def __exit__(self, exc_type, value, traceback):
         self.unload()
diff --git a/viscid/readers/vfile_bucket.py b/viscid/readers/vfile_bucket.py
index 207f1d9..9e6c5f7 100644
--- a/viscid/readers/vfile_bucket.py
+++ b/viscid/readers/vfile_bucket.py
@@ -115,11 +115,11 @@ class VFileBucket(Bucket):
 
                 handle_name = ftype.collective_name(group)
 
-                try:
+                if self.contains_handle(handle_name):
                     f = self[handle_name]
                     if force_reload:
                         f.reload()
-                except KeyError:
+                else:
                     try:
                         f = ftype(group, parent_bucket=self, **kwargs)
                         f.handle_name = handle_name
@@ -139,8 +139,17 @@ class VFileBucket(Bucket):
                         # re-raise the last expection
                         raise
 
+                if f is None:
+                    continue
+
+                # the user holds at most one reference, on top of those of
+                # the files that loaded this one
+                add_ref = _add_ref or (self.contains_item(f) and
+                                       self.nr_references(f) == f._nr_child_refs)
                 self.set_item([handle_name], f, index_handle=index_handle,
-                              _add_ref=_add_ref)
+                              _add_ref=add_ref)
+                if _add_ref:
+                    f._nr_child_refs += 1
                 file_lst.append(f)
 
         if len(file_lst) == 0:
@@ -149,8 +158,13 @@ class VFileBucket(Bucket):
         return file_lst
 
     def remove_item(self, item, do_unload=True):
+        if not self.contains_item(item):
+            raise KeyError(item)
         if do_unload:
+            # this takes the item out too, unless other files still use it
             item.unload()
+            if not self.contains_item(item) or item._nr_child_refs > 0:
+                return
         super(VFileBucket, self).remove_item(item)
 
     def remove_item_by_handle(self, handle, do_unload=True):
@@ -194,8 +208,12 @@ class ContainerFile(VFile):  # pylint: disable=abstract-method
             self.child_bucket = parent_bucket
         self._child_files = []
         self._child_ref_count = {}
-        super(ContainerFile, self).__init__(fname, parent_bucket=parent_bucket,
-                                            **kwargs)
+        try:
+            super(ContainerFile, self).__init__(fname, parent_bucket=parent_bucket,
+                                                **kwargs)
+        except Exception:
+            self._unload_children()
+            raise
 
     def _load_child_file(self, fname, **kwargs):
         """Add file to self.child_bucket and remember it for when I unload"""
@@ -208,24 +226,29 @@ class ContainerFile(VFile):  # pylint: disable=abstract-method
                 self._child_ref_count[f.handle_name] = 1
         return f
 
+    def _unload_children(self):
+        children, ref_count = self._child_files, self._child_ref_count
+        self._child_files, self._child_ref_count = [], {}
+        for f in children:
+            f.unload(_ref_count=ref_count[f.handle_name])
+        return children
+
     def reload(self):
-        for child_handle in self._child_ref_count.keys():
-            self.child_bucket[child_handle].reload()
+        # children that nobody else uses are loaded anew
+        self._clear_cache()
+        self.remove_all_items()
+        for f in self._unload_children():
+            if self.child_bucket.contains_item(f):
+                f.reload()
         super(ContainerFile, self).reload()
 
-    def unload(self, **kwargs):
-        for child_handle in self._child_ref_count.keys():
-            ref_count = self._child_ref_count[child_handle]
-            if "count" in kwargs:
-                raise RuntimeError()
-            if "_ref_count" in kwargs:
-                raise RuntimeError()
-            self.child_bucket[child_handle].unload(_ref_count=ref_count)
-        super(ContainerFile, self).unload()
+    def _release(self):
+        super(ContainerFile, self)._release()
+        self._unload_children()
 
     def clear_cache(self):
-        for child_handle in self._child_ref_count.keys():
-            self.child_bucket[child_handle].clear_cache()
+        for f in self._child_files:
+            f.clear_cache()
         super(ContainerFile, self).clear_cache()
 
 ##
-- 
2.43.0


From a4eb0a3a860e3fc4117788c71172d8ab1cb5bcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:04 +0000
Subject: [PATCH 34/54] fix: equations: numexpr's remainder and vectors,
 numbers like 2.e3, fields named like functions, where() and comparisons;
 reflected bitwise operators; strings, comments and commas in json; empty rc
 files

---
 viscid/_rc.py                  | 10 ++--
 viscid/calculator/evaluator.py | 86 +++++++++++++++++++++++-----------
 viscid/field.py                | 10 ++++
 viscid/grid.py                 |  5 +-
 viscid/vjson.py                | 49 +++++--------------
 5 files changed, 90 insertions(+), 70 deletions(-)

diff --git a/viscid/_rc.py b/viscid/_rc.py
index 76561d1..40b0366 100644
--- a/viscid/_rc.py
+++ b/viscid/_rc.py
@@ -41,7 +41,7 @@ def _get_obj(rt, path):
         # and we're catching AttributeError, so the info about
         # what part of the path DNE would be lost
         raise RCPathError("'{0}' has no attribute '{1}'"
-                          "".format(rt.__name__, path[0]))
+                          "".format(getattr(rt, '__name__', rt), path[0]))
 
 
 def set_attribute(path, value):
@@ -58,7 +58,10 @@ def set_attribute(path, value):
         viscid.logger.warning("from rc file; '{0}' has no attribute '{1}'.\n"
                               "If this isn't a typeo then the functionality may "
                               "have moved.".format(".".join(p[:-1]), p[-1]))
-    setattr(obj, p[-1], value)
+    try:
+        setattr(obj, p[-1], value)
+    except (AttributeError, TypeError) as e:
+        raise RCPathError("can't set '{0}': {1}".format(path, e))
     return obj
 
 
@@ -81,7 +84,8 @@ def load_rc_file(fname):
                          "".format(tb, str(e), f.name))
                     raise ValueError(m)
 
-        for path, val in rc_obj.items():
+        # there's nothing in a file if all lines are comments
+        for path, val in (rc_obj or {}).items():
             try:
                 touched_objects.append(set_attribute(path, val))
             except RCPathError as e:
diff --git a/viscid/calculator/evaluator.py b/viscid/calculator/evaluator.py
index 963d3fa..e806a34 100644
--- a/viscid/calculator/evaluator.py
+++ b/viscid/calculator/evaluator.py
@@ -28,6 +28,26 @@ enabled = False
 
 __all__ = ["evaluate"]
 
+# numbers and strings are matched so that what looks like a symbol in
+# them (2.e3) is left alone
+_token_re = re.compile(r"""
+    (?P<literal> '[^']*' | "[^"]*" | 0[xX][0-9a-fA-F]+ |
+                 (?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][-+]?[0-9]+)?[jJ]?) |
+    (?P<func> [_A-Za-z][_a-zA-Z0-9]*(?=\s*\()) |
+    (?P<symbol> [_A-Za-z][_a-zA-Z0-9]*)
+    """, re.VERBOSE)
+
+
+def _salt_tokens(eqn, symbol_salter, func_salter):
+    def _salter(m):
+        if m.group("symbol"):
+            return symbol_salter(m.group("symbol"))
+        elif m.group("func"):
+            return func_salter(m.group("func"))
+        else:
+            return m.group()
+    return _token_re.sub(_salter, eqn)
+
 
 def evaluate(grid, result_name, eqn, try_numexpr=True, slc=Ellipsis):
     """Evaluate an equation on a grid
@@ -70,7 +90,7 @@ def evaluate(grid, result_name, eqn, try_numexpr=True, slc=Ellipsis):
             return _evaluate_numexpr(grid, result_name, eqn, slc=slc)
         except RuntimeError:
             pass
-        except TypeError:
+        except (TypeError, ValueError, ArithmeticError, NotImplementedError):
             logger.warning("Numexpr couldn't understand a math function you "
                            "tried to use in '{0}', falling back to numpy"
                            "".format(eqn))
@@ -82,41 +102,46 @@ def _evaluate_numexpr(grid, result_name, eqn, slc=Ellipsis):
         Field
 
     Raises:
-        RuntimeError, if no numexpr, or if evaluate is not enabled
+        RuntimeError, if no numexpr, or if evaluate is not enabled, or
+            if numexpr would not give what numpy does
         TypeError, if numexpr couldn't understand a math input
     """
     if not _has_numexpr:
         raise RuntimeError("Evaluate not enabled, or numexpr not installed.")
+    if '%' in eqn:
+        raise RuntimeError("numexpr's remainder has the sign of the dividend")
 
     # salt symbols that don't look like math functions and look them up
     # in the grid
     salt = "SALT"
-    _symbol_re = r"\b([_A-Za-z][_a-zA-Z0-9]*)\b"
-    var_re = _symbol_re + r"(?!\s*\()"
     flds = []
     # for security
     eqn = eqn.replace("__", "")
     local_dict = dict()
 
-    def var_salter(symbols):
-        symbol = symbols.groups()[0]
+    def var_salter(symbol):
         salted_symbol = salt + symbol
         # yes, i'm not using dict.update on purpose since grid's
         # getitem might copy the array
         if salted_symbol not in local_dict:
             this_fld = grid.get_field(symbol, slc=slc)
             local_dict[salted_symbol] = this_fld
-            if len(flds) == 0:
-                if isinstance(this_fld, field.Field):
-                    flds.append(this_fld)
-                else:
-                    raise RuntimeError("reduced to scalar, no need for numexpr")
+            if not isinstance(this_fld, field.Field):
+                raise RuntimeError("reduced to scalar, no need for numexpr")
+            if flds and (this_fld.fldtype != flds[0].fldtype or
+                         this_fld.layout != flds[0].layout or
+                         this_fld.shape != flds[0].shape):
+                raise RuntimeError("numexpr doesn't know about fields, it would "
+                                   "broadcast components against points")
+            flds.append(this_fld)
         return salted_symbol
 
-    salted_eqn = re.sub(var_re, var_salter, eqn)
+    salted_eqn = _salt_tokens(eqn, var_salter, lambda symbol: symbol)
 
     arr = ne.evaluate(salted_eqn, local_dict=local_dict,
                       global_dict={"__builtins__": {}})
+    if flds and arr.shape != flds[0].shape:
+        raise RuntimeError("reduced to scalar, no need for numexpr")
 
     # FIXME: actually detect the type of field instead of asserting it's
     # a scalar... also maybe auto-detect reduction operations?
@@ -137,39 +162,46 @@ def _evaluate_numpy(grid, result_name, eqn, slc=Ellipsis):
 
     # salt variable names
     salt = "SALT"
-    _symbol_re = r"(['\"]?\b[_A-Za-z][_a-zA-Z0-9]*)\b"
-    var_re = _symbol_re + r"(?!\s*\()"
     # for security
     eqn = eqn.replace("__", "")
     local_dict = dict()
+    flds = []
 
-    def var_salter(symbols):
-        symbol = symbols.groups()[0]
-        if symbol.startswith("'"):
-            return symbol
+    def var_salter(symbol):
         salted_symbol = salt + symbol
         # yes, i'm not using dict.update on purpose since grid's
         # getitem might copy the array
         if salted_symbol not in local_dict:
-            local_dict[salted_symbol] = grid.get_field(symbol, slc=slc)
+            this_fld = grid.get_field(symbol, slc=slc)
+            local_dict[salted_symbol] = this_fld
+            if isinstance(this_fld, field.Field):
+                flds.append(this_fld)
         return salted_symbol
-    salted_eqn = re.sub(var_re, var_salter, eqn)
 
-    # salt function names
-    func_re = _symbol_re + r"(\s*\()"
-    def func_salter(symbols):
-        symbol = symbols.groups()[0]
-        salted_symbol = salt + symbol
+    # functions are salted differently in case there's a field by that name
+    func_salt = "FUNC"
+
+    def func_salter(symbol):
+        salted_symbol = func_salt + symbol
         if salted_symbol not in local_dict:
             if hasattr(calc, symbol):
                 local_dict[salted_symbol] = getattr(calc, symbol)
             elif hasattr(np, symbol):
                 local_dict[salted_symbol] = getattr(np, symbol)
-        return salted_symbol + "("
-    salted_eqn = re.sub(func_re, func_salter, salted_eqn)
+        return salted_symbol
+
+    salted_eqn = _salt_tokens(eqn, var_salter, func_salter)
 
     # run eval
     fld = eval(salted_eqn, {"__builtins__": {}}, local_dict)  # pylint: disable=eval-used
+    if isinstance(fld, np.ndarray):
+        # some functions, like where, lose track of what's a field
+        for this_fld in flds:
+            if this_fld.shape == fld.shape:
+                fld = this_fld.wrap(fld)
+                break
+    elif any(fld is this_fld for this_fld in flds):
+        fld = fld.wrap(np.array(fld.data))
     try:
         fld.name = result_name
         fld.pretty_name = result_name
diff --git a/viscid/field.py b/viscid/field.py
index 1b48b14..dbc81c8 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -2020,6 +2020,16 @@ class Field(tree.Leaf):
         return self.wrap(self.data.__rdivmod__(self._ow(other)), other=other)
     def __rpow__(self, other):
         return self.wrap(self.data.__rpow__(self._ow(other)), other=other)
+    def __rlshift__(self, other):
+        return self.wrap(self.data.__rlshift__(self._ow(other)), other=other)
+    def __rrshift__(self, other):
+        return self.wrap(self.data.__rrshift__(self._ow(other)), other=other)
+    def __rand__(self, other):
+        return self.wrap(self.data.__rand__(self._ow(other)), other=other)
+    def __rxor__(self, other):
+        return self.wrap(self.data.__rxor__(self._ow(other)), other=other)
+    def __ror__(self, other):
+        return self.wrap(self.data.__ror__(self._ow(other)), other=other)
 
     # inplace operations are not implemented since the data
     # can up and disappear (due to clear_cache)... this could cause
diff --git a/viscid/grid.py b/viscid/grid.py
index a2df679..badd00e 100755
--- a/viscid/grid.py
+++ b/viscid/grid.py
@@ -282,8 +282,9 @@ class Grid(tree.Node):
             func = "_get_" + fldname
             if hasattr(self, func):
                 ret = getattr(self, func)()
-            elif len(fldname.split('=')) == 2:
-                result_name, eqn = (s.strip() for s in fldname.split('='))
+            elif '=' in fldname:
+                # the equation could have a == or <= of its own
+                result_name, eqn = (s.strip() for s in fldname.split('=', 1))
                 ret = evaluate(self, result_name, eqn, slc=slc)
                 try_final_slice = False
             else:
diff --git a/viscid/vjson.py b/viscid/vjson.py
index c83678c..f55ef2c 100644
--- a/viscid/vjson.py
+++ b/viscid/vjson.py
@@ -4,6 +4,7 @@ Comments are either # or //
 """
 from __future__ import print_function
 
+import re
 import sys
 
 try:
@@ -62,7 +63,11 @@ def rfind_all(s, substrings, start=0, end=None):
         if end == -1:
             return
         yield end
-        end -= (sublen - 1)  # use 0 for overlapping matches
+        # use end += (sublen - 1) for overlapping matches
+
+# strings are matched so that what they contain is left alone
+_comment_re = re.compile(r'("(?:\\.|[^"\\\n])*")|(?:#|//)[^\r\n]*')
+_trailing_comma_re = re.compile(r'("(?:\\.|[^"\\\n])*")|,(?=\s*[}\]])')
 
 def loads(text, **kwargs):
     """Wrap Python's :py:func:`json.loads`
@@ -73,42 +78,9 @@ def loads(text, **kwargs):
         text: json as a string
         **kwargs: passed to Python's :py:func:`json.loads`
     """
-    lines = text.split('\n')
-
-    last_nonempty = -1
-    for i in range(len(lines)):
-        # remove comments
-        for loc in find_all(lines[i], ('#', '//')):
-            # if there are an odd number of single or double quotes, then
-            # the comment char is part of a string, and should be kept
-            if (lines[i].count('"', 0, loc) % 2 == 0 and
-                lines[i].count("'", 0, loc) % 2 == 0):  # pylint: disable=bad-continuation
-                lines[i] = lines[i][:loc]
-                break
-
-        lines[i] = lines[i].rstrip()
-
-        # trailing comma?
-        if lines[i]:
-            remove_at = []
-            for loc in find_all(lines[i], ('}', ']')):
-                preceeding_txt = lines[i][:loc].rstrip()
-                # if no preceeding_txt on same line, check last_nonwhite
-                if not preceeding_txt:
-                    if last_nonempty > -1:
-                        if lines[last_nonempty][-1] == ',':
-                            lines[last_nonempty] = lines[last_nonempty][:-1]
-                else:
-                    if preceeding_txt[-1] == ',':
-                        remove_at.append(len(preceeding_txt) - 1)
-            for j, loc in enumerate(remove_at):
-                loc -= j
-                lines[i] = lines[i][:loc] + lines[i][loc + 1:]
-
-            if lines[i]:
-                last_nonempty = i
-
-    return _json.loads('\n'.join(lines), **kwargs)
+    text = _comment_re.sub(lambda m: m.group(1) or '', text)
+    text = _trailing_comma_re.sub(lambda m: m.group(1) or '', text)
+    return _json.loads(text, **kwargs)
 
 def load(f, **kwargs):
     """Read file and pass to :py:func:`loads`
@@ -120,7 +92,8 @@ def load(f, **kwargs):
     try:
         return loads(f.read(), **kwargs)
     except Exception:
-        print("JSON Error on file: {0}".format(f.name), file=sys.stderr)
+        print("JSON Error on file: {0}".format(getattr(f, 'name', f)),
+              file=sys.stderr)
         raise
 
 def dumps(obj, **kwargs):
-- 
2.43.0


From ae814f1e0dfd07abd6722e525a917793afd93fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:35 +0000
Subject: [PATCH 35/54] fix: plots leave fields alone, scale and flip what they
 say, and take documented options

Scaling data or coordinates of a plot changed the field's own arrays (and
failed for integers), color limits, contour levels and axis limits did not
follow scale / mod, xlabel / ylabel were ignored in 2d, flip_plot failed in
1d, registered color maps and option dictionaries of the caller were
modified, reversed color map names were split into letters, southern
plot_iono failed, lines in a plane were drawn in the wrong plane, lines
with one vertex or with a color for each vertex did not work, quiver
steps were found from the wrong axes, and the day side of x planes was
that of mhd coordinates whatever the coordinate system.
---
 viscid/plot/vpyplot.py | 173 +++++++++++++++++++++++++----------------
 viscid/vutil.py        |  15 ++--
 2 files changed, 118 insertions(+), 70 deletions(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 7d1a0a6..f1b30e6 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -10,6 +10,7 @@ Note:
 # FIXME: this module is way too long
 
 from __future__ import print_function
+from copy import copy
 from datetime import datetime
 from distutils.version import LooseVersion
 from itertools import count
@@ -139,6 +140,9 @@ def plot_opts_to_kwargs(plot_opts, plot_kwargs):
         return plot_kwargs
 
     plot_opts = plot_opts.strip()
+    if not plot_opts:
+        return plot_kwargs
+
     if plot_opts[0] == '{' and plot_opts[-1] == '}':
         try:
             import yaml
@@ -169,11 +173,12 @@ def plot_opts_to_kwargs(plot_opts, plot_kwargs):
             else:
                 # if opt[1:] are all strings, re-combine them since some legit
                 # options have underscores in them, like reversed cmap names
+                val = opt[1:]
                 try:
-                    opt[1:] = "_".join(opt[1:])
+                    val = "_".join(val)
                 except TypeError:
                     pass
-                plot_kwargs[opt[0]] = opt[1:]
+                plot_kwargs[opt[0]] = val
     return plot_kwargs
 
 
@@ -305,6 +310,8 @@ def _extract_actions_and_norm(axis, plot_kwargs, defaults=None):
 
     if "clim" in plot_kwargs:
         clim = plot_kwargs.pop('clim')
+        if not isinstance(clim, (list, tuple)):
+            clim = [clim]
         norm_dict['clim'][:len(clim)] = clim
 
     if "vmin" in plot_kwargs:
@@ -458,6 +465,7 @@ def _plot2d_single(ax, fld, style, namex, namey, mod, scale,
             # this is a hack to get rid or the white space
             # between patches when contouring
             Xnc, Ync = fld.get_crds_nc((namex, namey))
+            X, Y = np.array(X), np.array(Y)
             X[0], X[-1] = Xnc[0], Xnc[-1]
             Y[0], Y[-1] = Ync[0], Ync[-1]
 
@@ -465,12 +473,12 @@ def _plot2d_single(ax, fld, style, namex, namey, mod, scale,
         # translate latitude from 0..180 to -90..90
         X, Y = np.meshgrid(X, 90 - Y)
     if mod:
-        X *= mod[0]
-        Y *= mod[1]
+        X = X * mod[0]
+        Y = Y * mod[1]
 
     dat = fld.data.T
     if scale is not None:
-        dat *= scale
+        dat = dat * scale
     if masknan:
         dat = np.ma.masked_where(np.isnan(dat), dat)
         all_masked = all_masked and dat.mask.all()
@@ -518,13 +526,17 @@ def _plot2d_single(ax, fld, style, namex, namey, mod, scale,
             if axis_i is ax.xaxis and autofmt_xdate:
                 ax.get_figure().autofmt_xdate()
 
+    # use a copy so that the color of bad values isn't changed for everybody
+    # else who uses the color map
+    cmap = copy(p.get_cmap())
     try:
         if masknan:
-            p.get_cmap().set_bad(masknan)
+            cmap.set_bad(masknan)
         else:
             raise ValueError()
     except ValueError:
-        p.get_cmap().set_bad('y')
+        cmap.set_bad('y')
+    p.set_cmap(cmap)
 
     # show patches?
     if patchec and patchlw:
@@ -570,10 +582,24 @@ def plot2d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
     # parse plot_opts
     plot_kwargs = plot_opts_to_kwargs(plot_opts, plot_kwargs)
 
+    flip_plot = plot_kwargs.pop("flipplot", False)
+    flip_plot = plot_kwargs.pop("flip_plot", flip_plot)
+    mod = plot_kwargs.pop("mod", None)
+
+    # extent of the horizontal / vertical axes of the plot
+    data_xl = np.array(fld.xl[:2])
+    data_xh = np.array(fld.xh[:2])
+    if mod:
+        data_xl = data_xl * np.asarray(mod)
+        data_xh = data_xh * np.asarray(mod)
+    if flip_plot:
+        data_xl = data_xl[::-1]
+        data_xh = data_xh[::-1]
+
     # guess a good default value for 'axis'... i am so sorry for this logic
     # but i'm kinda playing the stanly cup in a sandbox here
-    _xl = np.array(fld.xl[:2])
-    _xh = np.array(fld.xh[:2])
+    _xl = np.array(data_xl)
+    _xh = np.array(data_xh)
     if 'x' in plot_kwargs:
         _xl[0], _xh[0] = plot_kwargs['x']
     if 'y' in plot_kwargs:
@@ -587,7 +613,7 @@ def plot2d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
     # take a step back and go through any shared axes... if any of the
     # shared axes use 'image', 'equal', or 'box', then this axis should too
     shared_axes = set(ax.get_shared_x_axes().get_siblings(ax))
-    shared_axes |= set(ax.get_shared_x_axes().get_siblings(ax))
+    shared_axes |= set(ax.get_shared_y_axes().get_siblings(ax))
     for sax in shared_axes:
         _asp = sax.get_aspect()
         _adj = sax.get_adjustable()
@@ -604,24 +630,13 @@ def plot2d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
     _axis, using_default_viscid_axis, plot_kwargs = _pop_axis_opts(plot_kwargs,
                                                                    default=_axis_def)
 
-    flip_plot = plot_kwargs.pop("flipplot", False)
-    flip_plot = plot_kwargs.pop("flip_plot", flip_plot)
-
     tightlim = plot_kwargs.pop('tightlim', plot_kwargs.pop('tightlims', True))
     _proj = getattr(ax, "transProjection", None)
     if tightlim and (_proj is None or 'identity' in _proj.__class__.__name__.lower()):
-        _xl = np.array(fld.xl[:2])
-        _xh = np.array(fld.xh[:2])
         if 'x' not in plot_kwargs:
-            if flip_plot:
-                plot_kwargs['x'] = (fld.xl[1], fld.xh[1])
-            else:
-                plot_kwargs['x'] = (fld.xl[0], fld.xh[0])
+            plot_kwargs['x'] = (data_xl[0], data_xh[0])
         if 'y' not in plot_kwargs:
-            if flip_plot:
-                plot_kwargs['y'] = (fld.xl[0], fld.xh[0])
-            else:
-                plot_kwargs['y'] = (fld.xl[1], fld.xh[1])
+            plot_kwargs['y'] = (data_xl[1], data_xh[1])
 
     actions, norm_dict = _extract_actions_and_norm(ax, plot_kwargs,
                                                    defaults={'axis': _axis})
@@ -655,7 +670,6 @@ def plot2d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
     patchec = plot_kwargs.pop("patchec", None)
     patchlw = plot_kwargs.pop("patchlw", 0.25)
     patchaa = plot_kwargs.pop("patchaa", True)
-    mod = plot_kwargs.pop("mod", None)
     title = plot_kwargs.pop("title", None)
     cax = plot_kwargs.pop("cax", None)
     cbar = plot_kwargs.pop("cbar", True)
@@ -693,17 +707,24 @@ def plot2d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
         if cbar_kwargs:
             viscid.logger.warning("Clobbering cbar_kwargs with colorbar")
         colorbar, cbar_kwargs = True, colorbar
+    cbar_kwargs = dict(cbar_kwargs)
 
     #########################
     # figure out the norm...
+
+    # limits of the data as they're shown, ie, after scaling
+    _scale = 1 if scale is None else scale
+    vlims = [_scale * func(blk.data) for blk in fld.patches
+             for func in (np.nanmin, np.nanmax)]
+
     if norm is None:
         vscale = norm_dict['vscale']
         vmin, vmax = norm_dict['clim']
 
         if vmin is None:
-            vmin = np.nanmin([np.nanmin(blk) for blk in fld.patches])
+            vmin = np.nanmin(vlims)
         if vmax is None:
-            vmax = np.nanmax([np.nanmax(blk) for blk in fld.patches])
+            vmax = np.nanmax(vlims)
 
         # vmin / vmax will only be nan if all values are nan
         if np.isnan(vmin) or np.isnan(vmax):
@@ -737,17 +758,23 @@ def plot2d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
         else:
             raise ValueError("Unknown norm vscale: {0}".format(vscale))
 
-        if norm is not None:
-            plot_kwargs['norm'] = norm
     else:
-        if isinstance(norm, Normalize):
-            vscale = "lin"
-        elif isinstance(norm, LogNorm):
+        # note: LogNorm is a subclass of Normalize
+        if isinstance(norm, LogNorm):
             vscale = "log"
+        elif isinstance(norm, Normalize):
+            vscale = "lin"
         else:
             raise TypeError("Unrecognized norm type: {0}".format(type(norm)))
+        if norm.vmin is None:
+            norm.vmin = np.nanmin(vlims)
+        if norm.vmax is None:
+            norm.vmax = np.nanmax(vlims)
         vmin, vmax = norm.vmin, norm.vmax
 
+    if norm is not None:
+        plot_kwargs['norm'] = norm
+
     if "cmap" not in plot_kwargs and np.isclose(vmax, -1 * vmin, atol=0):
         # by default, the symmetric_cmap is seismic (blue->white->red)
         symmetric_cmap = rcParams.get("viscid.symmetric_cmap", None)
@@ -862,9 +889,9 @@ def plot2d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
         x_is_shared, y_is_shared = _are_xy_shared(ax)
         bottom_most, left_most = _ax_on_edge(ax)
         if not x_is_shared or (x_is_shared and bottom_most):
-            ax.set_xlabel(namex)
+            ax.set_xlabel(xlabel)
         if not y_is_shared or (y_is_shared and left_most):
-            ax.set_ylabel(namey)
+            ax.set_ylabel(ylabel)
 
     _apply_axfmt(ax, majorfmt=majorfmt, minorfmt=minorfmt,
                  majorloc=majorloc, minorloc=minorloc)
@@ -991,12 +1018,13 @@ def plot2d_mapfield(fld, ax=None, plot_opts=None, **plot_kwargs):
     projection = plot_kwargs.pop("projection", "polar")
     hemisphere = plot_kwargs.pop("hemisphere", "none").lower().strip()
     drawcoastlines = plot_kwargs.pop("drawcoastlines", False)
-    lon_0 = plot_kwargs.pop("lon_0", 0.0)
-    lat_0 = plot_kwargs.pop("lat_0", None)
-    bounding_lat = plot_kwargs.pop("bounding_lat", None)
+    lon_0 = plot_kwargs.pop("lon_0", plot_kwargs.pop("lon0", 0.0))
+    lat_0 = plot_kwargs.pop("lat_0", plot_kwargs.pop("lat0", None))
+    bounding_lat = plot_kwargs.pop("bounding_lat",
+                                   plot_kwargs.pop("boundinglat", None))
     bounding_lat_specified = bounding_lat is not None
     title = plot_kwargs.pop("title", True)
-    label_lat = plot_kwargs.pop("label_lat", True)
+    label_lat = plot_kwargs.pop("label_lat", plot_kwargs.pop("labellat", True))
     label_mlt = plot_kwargs.pop("label_mlt", True)
 
     # try to autodiscover hemisphere if ALL the thetas are either above
@@ -1174,7 +1202,7 @@ def _set_default_cbar_pad(kwargs, pad=0.2, inplace=True):
         cbar_kwargs = dict()
 
     if 'pad' not in cbar_kwargs:
-        cbar_kwargs['pad'] = pad
+        cbar_kwargs = dict(cbar_kwargs, pad=pad)
         kwargs[set_key] = cbar_kwargs
 
     return kwargs
@@ -1234,7 +1262,7 @@ def plot_iono(fld, *args, **kwargs):
     if hem in ('north', 'n'):
         fldH = fld["lat=10j:"]
     elif hem in ('south', 's'):
-        fldH = fld['theta=:-10j']
+        fldH = fld["lat=:-10j"]
     else:
         raise ValueError("Unknown hemisphere: {0}".format(hem))
 
@@ -1305,6 +1333,8 @@ def plot1d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
     legend = plot_kwargs.pop("legend", False)
     label = plot_kwargs.pop("label", patch0.pretty_name)
     mod = plot_kwargs.pop("mod", None)
+    flip_plot = plot_kwargs.pop("flipplot", False)
+    flip_plot = plot_kwargs.pop("flip_plot", flip_plot)
 
     plot_kwargs["label"] = label
     namex, = patch0.crds.axes
@@ -1323,12 +1353,23 @@ def plot1d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
     x, dat = ax_arrs
 
     if mod:
-        x *= mod
-    if scale:
-        dat *= scale
+        x = x * mod
+
+    if scale is not None:
+        dat = dat * scale
+
     if masknan:
         dat = np.ma.masked_where(np.isnan(dat), dat)
-    p = ax.plot(x, dat, **plot_kwargs)
+
+    if flip_plot:
+        p = ax.plot(dat, x, **plot_kwargs)
+        datetime_fmt = datetime_fmt[::-1]
+        set_crdscale, set_datscale = ax.set_yscale, ax.set_xscale
+        set_datlim = ax.set_xlim
+    else:
+        p = ax.plot(x, dat, **plot_kwargs)
+        set_crdscale, set_datscale = ax.set_xscale, ax.set_yscale
+        set_datlim = ax.set_ylim
 
     _apply_time_axes(ax.get_figure(), ax, datetime_fmt, autofmt_xdate)
     _apply_actions(actions)
@@ -1337,25 +1378,27 @@ def plot1d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
     # set scale based on norm_dict
     vmin, vmax = norm_dict['clim']
     if norm_dict['crdscale'] == 'log':
-        ax.set_xscale('log')
+        set_crdscale('log')
     if norm_dict['vscale'] == 'log':
-        ax.set_yscale('log')
+        set_datscale('log')
     if norm_dict['symmetric']:
         if norm_dict['vscale'] == 'log':
             raise ValueError("log scale can't be symmetric about 0")
-        maxval = max(abs(max(dat)), abs(min(dat))) + 0.05 * (max(dat) - min(dat))
+        dmin, dmax = np.nanmin(dat), np.nanmax(dat)
+        maxval = max(abs(dmax), abs(dmin)) + 0.05 * (dmax - dmin)
         vmin, vmax = -maxval, maxval
     if norm_dict['vscale'] is not None:
         if vmin is not None or vmax is not None:
-            ax.set_ylim((vmin, vmax))
+            set_datlim((vmin, vmax))
 
     ########################
     # apply labels and such
     if not nolabels:
+        labelx, labely = (label, namex) if flip_plot else (namex, label)
         if xlabel is None:
-            xlabel = namex
+            xlabel = labelx
         if ylabel is None:
-            ylabel = label
+            ylabel = labely
         ax.set_xlabel(xlabel)
         ax.set_ylabel(ylabel)
 
@@ -1365,7 +1408,7 @@ def plot1d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
     if legend:
         if isinstance(legend, bool):
             legend = 0
-        ax.legend(loc=0)
+        ax.legend(loc=legend)
 
     plt.sca(ax)
     if show:
@@ -1437,7 +1480,7 @@ def plot2d_lines(lines, scalars=None, symdir="", ax=None,
     verts, segments, vert_scalars, seg_scalars, vert_colors, seg_colors, _ = r
     # alpha = other['alpha']
 
-    xind, yind, zind = _xyzind_from_symdir(segments, symdir)
+    xind, yind, zind = _xyzind_from_symdir(verts, symdir)
 
     if flip_plot:
         xind, yind = yind, xind
@@ -1459,8 +1502,7 @@ def plot2d_lines(lines, scalars=None, symdir="", ax=None,
     ax.add_collection(line_collection)
 
     if marker:
-        if not marker_kwargs:
-            marker_kwargs = dict()
+        marker_kwargs = dict(marker_kwargs) if marker_kwargs else dict()
 
         # if colors are not given,
         if 'c' not in marker_kwargs:
@@ -1554,8 +1596,7 @@ def plot3d_lines(lines, scalars=None, ax=None, show=False, subsample=2,
     ax.add_collection3d(line_collection)
 
     if marker:
-        if not marker_kwargs:
-            marker_kwargs = dict()
+        marker_kwargs = dict(marker_kwargs) if marker_kwargs else dict()
 
         # if colors are not given,
         if 'c' not in marker_kwargs:
@@ -1622,8 +1663,8 @@ def plot2d_quiver(fld, step=1, ax=None, axis='none', equal=False, **kwargs):
     # get stepd scalar fields for the vector components in the plane
     if not hasattr(step, "__getitem__") or len(step) < 2:
         step = np.array([step, step]).reshape(-1)
-    first_l = (fld.shape[0] % step[0]) // 2
-    first_m = (fld.shape[1] % step[1]) // 2
+    first_l = (fld.sshape[0] % step[0]) // 2
+    first_m = (fld.sshape[1] % step[1]) // 2
     vl = fld[l][first_l::step[0], first_m::step[1]]
     vm = fld[m][first_l::step[0], first_m::step[1]]
 
@@ -1881,7 +1922,7 @@ def plot_earth(plane_spec, ax=None, scale=1.0, rot=0,
                              "2d \nplane, we're in and can't figure out the "
                              "size of earth.")
                 return None
-        value = np.min(np.abs(values))
+        value = values[np.argmin(np.abs(values))]
     else:
         plane, value = [s.strip() for s in plane_spec.split("=")]
         value = float(value)
@@ -1905,7 +1946,8 @@ def plot_earth(plane_spec, ax=None, scale=1.0, rot=0,
         ax.add_patch(mpatches.Wedge((0, 0), radius, 270 + rot, 450 + rot,
                                     ec=nightcol, fc=nightcol, zorder=zorder))
     elif plane == 'x':
-        if value < 0:
+        # the sun is in the +x direction in gse, and -x in mhd coordinates
+        if (value > 0) if crd_system == "gse" else (value < 0):
             ax.add_patch(mpatches.Circle((0, 0), radius, ec=nightcol,
                                          fc=daycol, zorder=zorder))
         else:
@@ -2091,6 +2133,13 @@ def _prep_lines(lines, scalars=None, subsample=2, pts_interp='linear',
             t_coarse = np.linspace(0, 1, n_coarse)
             t_fine = np.linspace(0, 1, n_fine)
 
+            if n_coarse == 1:
+                # there's nothing to interpolate if this line has exactly 1
+                # vertex
+                fine_verts[i][...] = coarse_verts
+                fine_scalars[i][...] = coarse_scalars
+                continue
+
             try:
                 # raise ImportError
                 from scipy.interpolate import interp1d
@@ -2112,12 +2161,6 @@ def _prep_lines(lines, scalars=None, subsample=2, pts_interp='linear',
                 for j in range(scalars.shape[0]):
                     fine_scalars[i][j, :] = np.interp(t_fine, t_coarse,
                                                       coarse_scalars[j, :])
-            except ValueError:
-                # this happens in scipy's interp1d if this line has exactly 1
-                # vertex
-                fine_verts[i][j, :] = coarse_verts[j, :]
-                if coarse_scalars.shape[0] > 0:
-                    fine_scalars[i][j, :] = coarse_scalars[j, :]
 
             new_start = np.sum(np.ceil((verts_per_line[:i] - 1) * subsample) + 1)
 
diff --git a/viscid/vutil.py b/viscid/vutil.py
index da5e442..eb9c319 100644
--- a/viscid/vutil.py
+++ b/viscid/vutil.py
@@ -340,11 +340,13 @@ def prepare_lines(lines, scalars=None, do_connections=False, other=None):
     if vertices.dtype.kind not in 'fc':
         vertices = np.asarray(vertices, dtype='f')
 
+    colors_from_lines = False
     if vertices.shape[0] > 3:
         if scalars is not None:
             viscid.logger.warning("Overriding line scalars with scalars kwarg")
         else:
             scalars = vertices[3:, :]
+            colors_from_lines = scalars.shape[0] > 1
         vertices = vertices[:3, :]
 
     if scalars is not None:
@@ -367,6 +369,7 @@ def prepare_lines(lines, scalars=None, do_connections=False, other=None):
             elif isinstance(scalars, np.ndarray):
                 scalars = scalars
             else:
+                scalars = list(scalars)
                 for i, si in enumerate(scalars):
                     if not isinstance(si, np.ndarray):
                         scalars[i] = np.asarray(si)
@@ -383,7 +386,10 @@ def prepare_lines(lines, scalars=None, do_connections=False, other=None):
                                "that indicate rgb(a), or hex strings - they "
                                "must not be python objects")
 
-        if scalars.shape == (1, 1):
+        if colors_from_lines:
+            # one rgb(a) color for each vertex, already standard shape
+            scalars = scalars.reshape(-1, N)
+        elif scalars.shape == (1, 1):
             scalars = scalars.repeat(N, axis=1)
         elif scalars.shape == (1, nlines) or scalars.shape == (nlines, 1):
             # one scalar for each line, so broadcast it
@@ -409,10 +415,9 @@ def prepare_lines(lines, scalars=None, do_connections=False, other=None):
             scalars = np.concatenate(colors, axis=1)
         elif scalars.shape in [(3, N), (N, 3), (4, N), (N, 4)]:
             # one rgb(a) color for each vertex
-            if (scalars.shape in [(3, N), (4, N)] and
-                scalars.shape not in [(3, 3), (4, 4)]):
-                # the guard against shapes (3, 3) and (4, 4) mean that
-                # these square shapes are assumed N x {3,4}
+            if scalars.shape in [(N, 3), (N, 4)]:
+                # note that square shapes (3, 3) and (4, 4) are assumed
+                # N x {3,4}
                 scalars = scalars.T
         elif scalars.shape in [(1, 3), (3, 1), (1, 4), (4, 1)]:
             # interpret a single rgb(a) color, and repeat/broadcast it
-- 
2.43.0


From c16a85526a2783f034be536f04662d191ea424a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:13 +0000
Subject: [PATCH 36/54] fix: boundary analysis: variance of series with a large
 mean, l directions against the normal, shear on the magnetosphere side,
 masked currents

---
 viscid/calculator/minvar_tools.py | 19 +++++++++----------
 viscid/calculator/mpause.py       |  7 ++++---
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/viscid/calculator/minvar_tools.py b/viscid/calculator/minvar_tools.py
index 344ff7b..9633b9b 100644
--- a/viscid/calculator/minvar_tools.py
+++ b/viscid/calculator/minvar_tools.py
@@ -56,15 +56,13 @@ def minvar_series(arr, warn_finite=True):
         return [np.full([3], np.nan, dtype=arr.dtype),
                 np.full([3, 3], np.nan, dtype=arr.dtype)]
 
-    arr = arr[mask]
-    m = np.zeros((3, 3))
-    for i in range(3):
-        for j in range(i+1):
-            bibj = np.mean(arr[:, i] * arr[:, j])
-            m[i, j] = bibj - (np.mean(arr[:, i]) * np.mean(arr[:, j]))
-            m[j, i] = bibj - (np.mean(arr[:, i]) * np.mean(arr[:, j]))
-
-    evals, evecs = np.linalg.eig(m)
+    # remove the mean before multiplying, otherwise the variance is lost to
+    # roundoff if it's small compared to the mean
+    arr = np.asarray(arr[mask], dtype='f8')
+    arr = arr - np.mean(arr, axis=0)
+    m = np.dot(arr.T, arr) / len(arr)
+
+    evals, evecs = np.linalg.eigh(m)
     eval_mags = np.abs(evals)
     sorted_inds = np.argsort(eval_mags)
     evec_min = evecs[:, sorted_inds[0]].flatten()
@@ -135,7 +133,8 @@ def _minvar_lmn_directions(evec_min, evec_max, l_basis=(0, 0, 1)):
 
     try:
         l_basis = np.array(l_basis).reshape((3,))
-        if np.allclose(n_dir, l_basis / np.linalg.norm(l_basis)):
+        if np.allclose(np.cross(n_dir, l_basis / np.linalg.norm(l_basis)), 0.0,
+                       atol=1e-5):
             viscid.logger.warning("LMN says l_basis is parallel to normal, using "
                                   "MVAs max eigenvector direction")
             raise ValueError
diff --git a/viscid/calculator/mpause.py b/viscid/calculator/mpause.py
index ee819bd..194623f 100644
--- a/viscid/calculator/mpause.py
+++ b/viscid/calculator/mpause.py
@@ -219,20 +219,21 @@ def get_mp_info(pp, b, j, e, cache=True, cache_dir=None,
             ic, _, iy, iz = np.ix_(*[np.arange(si) for si in b_block.shape])
             ix = np.clip(sheath_ind + step, 0, nx - 1)
             b_sheath = b_block.data[ic, ix, iy, iz]
-            ix = np.clip(sheath_ind - step, 0, nx - 1)
+            ix = np.clip(sphere_ind - step, 0, nx - 1)
             b_sphere = b_block.data[ic, ix, iy, iz]
         elif b_block.layout == "interlaced":
             comp_axis = 3
             _, iy, iz = np.ix_(*[np.arange(si) for si in b_block.shape[:-1]])
             ix = np.clip(sheath_ind + step, 0, nx - 1)
             b_sheath = b_block.data[ix, iy, iz]
-            ix = np.clip(sheath_ind - step, 0, nx - 1)
+            ix = np.clip(sphere_ind - step, 0, nx - 1)
             b_sphere = b_block.data[ix, iy, iz]
         # extract b**2
         bmag_sheath = np.sqrt(np.sum(b_sheath**2, axis=comp_axis))
         bmag_sphere = np.sqrt(np.sum(b_sphere**2, axis=comp_axis))
         costheta = (np.sum(b_sheath * b_sphere, axis=comp_axis) /
                     (bmag_sphere * bmag_sheath))
+        costheta = np.clip(costheta, -1.0, 1.0)
         costheta = np.where((sheath_ind + step < nx) & (sphere_ind - step >= 0),
                             costheta, np.nan)
         mp_shear = mp_width.wrap((180.0 / np.pi) * np.arccos(costheta))
@@ -326,7 +327,7 @@ def find_mp_edges(j_block, msphere_thresh=0.1, sheath_thresh=0.1,
     nx = len(xcc)
 
     masked_jy = 1.0 * j_block['y']
-    masked_jy.data = np.ma.masked_where(jy_mask, j_block['y'])
+    masked_jy.data = np.where(jy_mask, 0.0, j_block['y'].data)
 
     jy_absmax = np.amax(np.abs(masked_jy), axis=0, keepdims=True)
 
-- 
2.43.0


From 60c6874f977310e3667b30d05f87011a7469fa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:13 +0000
Subject: [PATCH 37/54] fix: separators: seeds with poles, the caller's
 perimeter check, maps left alone, single clusters, clusters of one-row maps

---
 viscid/calculator/cluster.py   | 12 ++++++++----
 viscid/calculator/separator.py | 14 +++++++++++---
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/viscid/calculator/cluster.py b/viscid/calculator/cluster.py
index dab6824..d338493 100644
--- a/viscid/calculator/cluster.py
+++ b/viscid/calculator/cluster.py
@@ -80,7 +80,8 @@ def find_clusters(indx, indy, x, y, multiple=True, periodic=(False, False),
     if pd[1]:
         alt += [(0, -pdN[1]), (0, pdN[1])]
     if pd[0] and pd[1]:
-        alt += [(-pdN[0], -pdN[1]), (pdN[0], pdN[1])]
+        alt += [(-pdN[0], -pdN[1]), (pdN[0], pdN[1]),
+                (-pdN[0], pdN[1]), (pdN[0], -pdN[1])]
 
     # cli == cluster indices, clx == cluster locations
     clx = []
@@ -120,11 +121,14 @@ def find_clusters(indx, indy, x, y, multiple=True, periodic=(False, False),
                 clusters.append([i])
                 cli.append([[ix], [iy]])
                 clx.append([[x[ix]], [y[iy]]])
-    else:
-        clx = [[x[inds[0, :]], y[inds[1, :]]]]
+    elif len(inds):
+        clx = [[crds[0][inds[:, 0]], crds[1][inds[:, 1]]]]
 
     pts = np.array([np.average(clxi, axis=1) for clxi in clx]).reshape((-1, 2))
-    pts -= pdL * np.floor((pts - xl) / (xh - xl))
+    # wrap locations back into the domain, but only for periodic dimensions
+    for i in range(2):
+        if pd[i] and xh[i] != xl[i]:
+            pts[:, i] -= pdL[i] * np.floor((pts[:, i] - xl[i]) / (xh[i] - xl[i]))
     return pts.T
 
 def _main():
diff --git a/viscid/calculator/separator.py b/viscid/calculator/separator.py
index cc7bab3..1b847ea 100644
--- a/viscid/calculator/separator.py
+++ b/viscid/calculator/separator.py
@@ -165,10 +165,15 @@ def topology_bitor_clusters(fld, min_depth=1, max_depth=10, multiple=True,
     fld = fld.slice_reduce(":")
     if mask_limit:
         fld = np.bitwise_and(fld, mask_limit)
-    a = fld.data
+    a = np.array(fld.data)  # modified below for periodic dimensions
     x, y = fld.get_crds()
 
+    indx = indy = np.zeros([0], dtype='int')
+
     for i in range(max_depth):
+        if min(a.shape) < 2:
+            break  # there are no more neighbors
+
         if pd[0]:
             a[(0, -1), :] |= a[(-1, 0), :]
         if pd[1]:
@@ -182,8 +187,9 @@ def topology_bitor_clusters(fld, min_depth=1, max_depth=10, multiple=True,
         # bitwise_or an entire bounary if all points are neighbors, like
         # at the poles of a sphere
         for bnd in pt_bnds:
-            slc = (slice(None), slice(None))
+            slc = [slice(None), slice(None)]
             slc[int(bnd[0])] = -1 if bnd[1] == "+" else 0
+            slc = tuple(slc)
             a[slc] = np.bitwise_or.reduce(a[slc])
 
         indx, indy = np.where(a == sep_val)
@@ -418,6 +424,7 @@ def _get_sep_pts_bisect(fld, seed, trace_opts=None, min_depth=3, max_depth=7,
             subquads = _get_sep_pts_bisect(fld, seed, trace_opts=trace_opts,
                                            min_depth=min_depth,
                                            max_depth=max_depth, plot=plot,
+                                           perimeter_check=perimeter_check,
                                            _base_quadrent=next_quad,
                                            _uneven_mask=0,
                                            _first_recurse=False)
@@ -438,7 +445,8 @@ def _get_sep_pts_bisect(fld, seed, trace_opts=None, min_depth=3, max_depth=7,
         elif perimeter_check(perimeter):
             ret = _get_sep_pts_bisect(fld, seed, trace_opts=trace_opts,
                                       min_depth=min_depth, max_depth=max_depth,
-                                      plot=plot, _base_quadrent=_base_quadrent,
+                                      plot=plot, perimeter_check=perimeter_check,
+                                      _base_quadrent=_base_quadrent,
                                       _uneven_mask=UNEVEN_MASK,
                                       _first_recurse=False)
             required_uneven_subquads = True
-- 
2.43.0


From 6445ebc6d62f48436889eee770df2290424d104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:13 +0000
Subject: [PATCH 38/54] fix: fluid following: time interpolation weights, seeds
 and options left alone, curators' bounds and direction of time

---
 viscid/fluidtrace.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/viscid/fluidtrace.py b/viscid/fluidtrace.py
index a60cb5a..d1ef5fe 100644
--- a/viscid/fluidtrace.py
+++ b/viscid/fluidtrace.py
@@ -45,6 +45,9 @@ class SeedCurator(object):
                 self.obound0 = v_field.crds.xl_nc
             if self.obound1 is None:
                 self.obound1 = v_field.crds.xh_nc
+            # make copies that can hold inf
+            self.obound0 = np.array(self.obound0, dtype='f8')
+            self.obound1 = np.array(self.obound1, dtype='f8')
 
             _invar_dim_mask = np.array(v_field.sshape) == 1
             self.obound0[_invar_dim_mask] = -np.inf
@@ -104,7 +107,7 @@ class ContinuousCurator(SeedCurator):
         if self.last_run is None:
             self.last_run = time
 
-        if time - self.last_run > self.cadence:
+        if abs(time - self.last_run) > self.cadence:
             delmask = self._update_delmask_oob(v_field, seeds, delmask=delmask)
             seeds = np.concatenate([seeds[:, ~delmask], self.new_seeds], axis=1)
             self.last_run = time
@@ -178,6 +181,7 @@ def follow_fluid(dset, initial_seeds, time_slice=slice(None),
         root points after following the fluid
     """
     curator = SeedCurator() if curator is None else curator
+    stream_opts = dict(stream_opts)
 
     grids = [grid for grid in dset.iter_times(time_slice)]
     times = [g.time for g in grids]
@@ -224,7 +228,8 @@ def follow_fluid(dset, initial_seeds, time_slice=slice(None),
         raise RuntimeError("times is not monotonic")
 
     i = 0
-    seeds = initial_seeds.get_points()
+    # the points are moved in-place, so use a copy that can hold any location
+    seeds = np.array(initial_seeds.get_points(), dtype='f8')
 
     while tdir * (t - tstop) <= 0.0:
         idx0 = max(np.sum(tdir * (times - t) < 0.0) - 1, 0)
@@ -236,10 +241,10 @@ def follow_fluid(dset, initial_seeds, time_slice=slice(None),
 
         # get / calculate fields for each key at the current time
         if grid0 is grid1:
-            flds = [grid0[key] for key in fld_keys]
+            flds = [grid0[k][fld_slc] for k in fld_keys]
         else:
-            a = frac_interp
-            b = 1.0 - frac_interp
+            a = 1.0 - frac_interp
+            b = frac_interp
             flds = [viscid.axpby(a, grid0[k][fld_slc], b, grid1[k][fld_slc])
                     for k in fld_keys]
         anc_fields = OrderedDict([(k, v) for k, v in zip(anc_keys, flds[1:])])
@@ -266,6 +271,8 @@ def follow_fluid(dset, initial_seeds, time_slice=slice(None),
             seeds = curator.update(flds[0], seeds, time=t)
             t += tdir * dt
 
+    return seeds
+
 def _main():
     import os
     from viscid.plot import vpyplot as vlt
-- 
2.43.0


From 59410186eacc6e770e2e8cc233d57e54f7e2875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:49 +0000
Subject: [PATCH 39/54] fix: file tools: slices by location without a stop and
 odd names in file patterns, first match of paths, viscid_diff of one run,
 viscid_ts, athena2xdmf

---
 scripts/athena2xdmf | 23 +++++++++++------------
 scripts/viscid_diff |  7 +++----
 scripts/viscid_ts   |  6 +++---
 viscid/multiplot.py |  3 ++-
 viscid/vutil.py     | 20 ++++++++++++++------
 5 files changed, 33 insertions(+), 26 deletions(-)

diff --git a/scripts/athena2xdmf b/scripts/athena2xdmf
index 3169e71..8368aa3 100755
--- a/scripts/athena2xdmf
+++ b/scripts/athena2xdmf
@@ -53,8 +53,8 @@ def main():
         # coordinate arrays in each direction
         unique_crd_lst = [[], [], []]
         for g in grids:
-            # i corresponds to dimension (zyx)
-            for i, xi_nc in enumerate(g.get_crds_nc("zyx")):
+            # i corresponds to dimension (xyz), like the fields' data
+            for i, xi_nc in enumerate(g.get_crds_nc("xyz")):
                 has_match = False
                 for unique_xi in unique_crd_lst[i]:
                     # print(">>", i, xi_nc, unique_xi)
@@ -85,7 +85,7 @@ def main():
         nnodes = -999 * np.ones((3, len(grids)), dtype="int")
         ncells = -999 * np.ones((3, len(grids)), dtype="int")
         for igrid, g in enumerate(grids):
-            for i, xi_nc in enumerate(g.get_crds_nc("zyx")):
+            for i, xi_nc in enumerate(g.get_crds_nc("xyz")):
                 nnodes[i, igrid] = len(xi_nc)
                 ncells[i, igrid] = nnodes[i, igrid] - 1
                 if ncells[i, igrid] < 1:
@@ -106,18 +106,17 @@ def main():
             s_nc = []
             s_cc = []
             for i in range(3):
-                start = np.sum(nnodes[i, :ip[i, igrid]])
-                stop = start + nnodes[i, igrid]
-                s_nc.append(slice(start, stop))
-                start = np.sum(ncells[i, :ip[i, igrid]])
-                stop = start + ncells[i, igrid]
-                s_cc.append(slice(start, stop))
-            slices_nc.append(s_nc)
-            slices_cc.append(s_cc)
+                # neighbors share the nodes between them
+                start = sum(len(uc) - 1
+                            for uc in unique_crd_lst[i][:ip[i, igrid]])
+                s_nc.append(slice(start, start + nnodes[i, igrid]))
+                s_cc.append(slice(start, start + ncells[i, igrid]))
+            slices_nc.append(tuple(s_nc))
+            slices_cc.append(tuple(s_cc))
 
         # make coordinates
         clst = []
-        for i, ax, ucl in izip(count(), "zyx", unique_crd_lst):
+        for i, ax, ucl in izip(count(), "xyz", unique_crd_lst):
             # this removes the first element from all but the first unique
             # crd list, since that is a repeated node center
             to_cat = [uc[1:] if j > 0 else uc for j, uc in enumerate(ucl)]
diff --git a/scripts/viscid_diff b/scripts/viscid_diff
index 7095658..37c84bc 100755
--- a/scripts/viscid_diff
+++ b/scripts/viscid_diff
@@ -32,9 +32,8 @@ def main():
     logging.info("a = {0}".format(args.files[0]))
     logging.info("b = {0}".format(args.files[1]))
 
-    files = readers.load_files(args.files)
-    fa = files[0]
-    fb = files[1]
+    # one at a time, so that files of the same run aren't grouped
+    fa, fb = [readers.load_file(fname) for fname in args.files]
     fa.activate_time(args.t)
     fb.activate_time(args.t)
 
@@ -51,7 +50,7 @@ def main():
     else:
         fldnames = None
 
-    for flda in fa.iter_fields(named=fldnames):
+    for flda in fa.iter_fields(fld_names=fldnames):
         try:
             with fb[flda.name] as fldb:
                 diff = calc.diff(fldb, flda)
diff --git a/scripts/viscid_ts b/scripts/viscid_ts
index 23a5c7e..2b2e305 100755
--- a/scripts/viscid_ts
+++ b/scripts/viscid_ts
@@ -116,9 +116,9 @@ def main():
                 _slc = args.slice
             val = grid.get_field(pvname + eqn, slc=_slc)
 
-            if val.size > 1:
+            if np.size(val) > 1:
                 raise RuntimeError("you didn't slice away enough")
-            elif val.size == 0:
+            elif np.size(val) == 0:
                 raise RuntimeError("you sliced away too much?")
 
             plot_arrs[j][i] = val
@@ -130,7 +130,7 @@ def main():
     vlt.plot_opts_to_kwargs(global_popts, all_plot_kwargs)
 
     for j, plot_var in enumerate(args.plot_vars):
-        ts_as_fld = viscid.arrays2field(plot_arrs[j], t, name=plot_names[j])
+        ts_as_fld = viscid.arrays2field(t, plot_arrs[j], name=plot_names[j])
 
         plot_kwargs = all_plot_kwargs.copy()
         plot_kwargs['label'] = plot_names[j]
diff --git a/viscid/multiplot.py b/viscid/multiplot.py
index 93ea059..ed8d101 100644
--- a/viscid/multiplot.py
+++ b/viscid/multiplot.py
@@ -53,7 +53,8 @@ def make_multiplot(vfile, plot_func=None, nr_procs=1, time_slice=":", **kwargs):
     args_kw["first_run"] = True
     args_kw["first_run_result"] = None
 
-    if "subplot_params" not in args_kw.get("kwopts", {}):
+    r = [None]
+    if "subplot_params" not in (args_kw.get("kwopts", None) or {}):
         r = parallel.map(1, plot_func, [next(grid_iter)], args_kw=args_kw,
                          force_subprocess=(nr_procs > 1))
 
diff --git a/viscid/vutil.py b/viscid/vutil.py
index eb9c319..4b851b2 100644
--- a/viscid/vutil.py
+++ b/viscid/vutil.py
@@ -212,8 +212,6 @@ def resolve_path(dset, loc, first=False):
                             next_dsets.append(val)
                             next_searches.append(search[1:])
                             next_paths.append(path + [key])
-                            if first:
-                                break
             dsets = next_dsets
             searches = next_searches
             paths = next_paths
@@ -523,6 +521,14 @@ def get_trilinear_field():
                  1.0 * (X - x03) * (Y - y03) * (Z - z03))
     return b
 
+def _translate_part(pattern):
+    """Turn part of a glob pattern into a regular expression"""
+    ret = fnmatch.translate(pattern)
+    for end in (r"\Z", r"\z", "$"):
+        if ret.endswith(end):
+            return ret[:-len(end)]
+    return ret
+
 def slice_globbed_filenames(glob_pattern):
     """Apply a slice to a glob pattern
 
@@ -561,7 +567,7 @@ def slice_globbed_filenames(glob_pattern):
     dtime_re = sliceutil.RE_DTIME_SLC_GROUP
     number_re = r"[-+]?[0-9]*\.?[0-9]+[fjFJ]?|[-+]?[0-9+]"
     el_re = r"(?:{0}|{1})".format(dtime_re, number_re)
-    slc_re = r"\[({0})?(:({0}))?(:[-+]?[0-9]*)?\]".format(el_re)
+    slc_re = r"\[({0})?(:({0})?)?(:[-+]?[0-9]*)?\]".format(el_re)
     n_slices = len(re.findall(slc_re, glob_pattern))
 
     if n_slices > 1:
@@ -572,9 +578,11 @@ def slice_globbed_filenames(glob_pattern):
         m = re.search(slc_re, glob_pattern)
         slcstr = glob_pattern[m.start() + 1:m.end() - 1]
         edited_glob = glob_pattern[:m.start()] + "*" + glob_pattern[m.end():]
-        res_re = glob_pattern[:m.start()] + "TSLICE" + glob_pattern[m.end():]
-        res_re = fnmatch.translate(res_re)
-        res_re = res_re.replace("TSLICE", r"(?P<TSLICE>.*?)")
+        # everything before the slice is matched first; the number is as short
+        # as what comes after it allows
+        res_re = "{0}(?P<TSLICE>.*?){1}".format(
+            _translate_part(glob_pattern[:m.start()]),
+            fnmatch.translate(glob_pattern[m.end():]))
     else:
         edited_glob = glob_pattern
         slcstr = ""
-- 
2.43.0


From 72e80bf9a692568a95a20e9a5231c5a2f07a7e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:16 +0000
Subject: [PATCH 40/54] fix: fields made of patches: in-place operators raised,
 interpolated slices through one patch raised

---
 viscid/amr_field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 2613043..3317af1 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -245,8 +245,7 @@ class AMRField(object):
     def interpolated_slice(self, selection):
         fld_lst, _ = self._prepare_amr_slice(selection)
         if not isinstance(fld_lst, list):
-            raise RuntimeError("can't interpolate to that slice?")
-
+            return fld_lst.interpolated_slice(selection)
         ret_lst = [fld.interpolated_slice(selection) for fld in fld_lst]
         return self._finalize_amr_slice(ret_lst)
 
@@ -297,6 +296,9 @@ class AMRField(object):
                 else:
                     other[j] = arg
             lst[i] = getattr(patch, attrname)(*other, **kwargs)
+            if lst[i] is NotImplemented:
+                # let python fall back, ie, a += b to a = a + b
+                return NotImplemented
 
         if np.asarray(lst[0]).size == 1:
             # operation reduced to scalar
-- 
2.43.0


From 08fc5a262e8ca8be7754a5523b80c8aca025f47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:23 +0000
Subject: [PATCH 41/54] fix: GGCM grids with only face-centered fields don't
 recurse when asked for b; logs without a mhd type

---
 viscid/readers/openggcm.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index aa09cd6..fc84bd8 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -249,7 +249,7 @@ class GGCMGrid(grid.Grid):
                 # twice smaller than the high edge, then assume
                 # it's a magnetosphere box with xl < 0.0 is the sunward
                 # edge in "MHD" coordinates
-                is_openggcm = self.find_info('ggcm_mhd_type') == "ggcm"
+                is_openggcm = self.find_info('ggcm_mhd_type', '') == "ggcm"
                 # this 2nd check is in case the ggcm_mhd view in the
                 # log file is mangled... this happens sometimes
                 ic_type = self.find_info('ggcm_mhd_ic_type', '')
@@ -405,7 +405,14 @@ class GGCMGrid(grid.Grid):
         comps = [self[base_name + c + suffix] for c in comp_names]
         return field.scalar_fields_to_vector(comps, name=base_name, **opts)
 
+    def _has_components(self, base_name, comp_names="xyz"):
+        # are the components fields of their own? asking for self['bx'] is
+        # not the same thing since _get_bx looks for the vector
+        return all(base_name + c in self for c in comp_names)
+
     def _get_v(self):
+        if not self._has_components("v"):
+            raise KeyError("field not found: v")
         return self._assemble_vector("v", _force_layout=self.force_vector_layout,
                                      pretty_name="V")
 
@@ -452,11 +459,11 @@ class GGCMGrid(grid.Grid):
         return self._get_b_cc()
 
     def _get_b_cc(self):
-        try:
+        if self._has_components("b"):
             # get from [bx, by, bz]
             return self._assemble_vector("b", _force_layout=self.force_vector_layout,
                                          pretty_name="B")
-        except KeyError:
+        else:
             # raise NotImplementedError("FC -> CC transform not standardized")
             return viscid.fc2cc(self._get_b_fc())
 
-- 
2.43.0


From a0a22dcd302ef80d8bc47414eafeb98960c4818c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:23 +0000
Subject: [PATCH 42/54] fix: Node.find_attr looks at each parent node

---
 viscid/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/tree.py b/viscid/tree.py
index 63b360e..9020617 100644
--- a/viscid/tree.py
+++ b/viscid/tree.py
@@ -197,7 +197,7 @@ class Node(object):
         """
         def _condition(_node, _):
             return (hasattr(_node, attr_name) and
-                    getattr(parent, attr_name) is not NotImplemented)
+                    getattr(_node, attr_name) is not NotImplemented)
         parent = self._parent_bfs(_condition)
         if parent is not None:
             return getattr(parent, attr_name)
-- 
2.43.0


From 66e58e9641107e5521f35a8c9be7dd8b575fb434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:23 +0000
Subject: [PATCH 43/54] fix: as_cotr goes on looking when a node has no
 transform of its own

---
 viscid/cotr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index cb9afbf..30b15dd 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -791,7 +791,7 @@ def as_cotr(thing=None, default=_NOT_GIVEN):
 
     if thing is None:
         cotr = Cotr(dip_tilt=0.0, dip_gsm=0.0)
-    elif hasattr(thing, "__cotr__"):
+    elif getattr(thing, "__cotr__", NotImplemented) is not NotImplemented:
         cotr = thing.__cotr__
     elif is_datetime_like(thing):
         cotr = Cotr(time=thing)
-- 
2.43.0


From a8bb0906a61e421dab1113b500e2606bc21f1527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:23 +0000
Subject: [PATCH 44/54] fix: deferred children of a dataset can be deleted

---
 viscid/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/dataset.py b/viscid/dataset.py
index 7d8e226..83d0a33 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -430,8 +430,8 @@ class Dataset(tree.Node):
             raise KeyError()
 
     def __delitem__(self, item):
-        # FIXME, is it possable to de-resolve item to a DeferredChild?
-        child = self.get_child(item)
+        # deferred children are kept as such, so don't resolve them here
+        child = self.children[item]
         child.clear_cache()
         self.children.remove_item(child)
 
-- 
2.43.0


From 12bd1e73f23fc3646ea0b6123cdca21529efdb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:23 +0000
Subject: [PATCH 45/54] fix: components of different types are collected into a
 vector of their common type

---
 viscid/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index dbc81c8..b6c001a 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -768,7 +768,7 @@ class Field(tree.Leaf):
         # dtype.name is for pruning endianness out of dtype
         if self._dtype is None:
             if isinstance(self._src_data, (list, tuple)):
-                dt = self._src_data[0].dtype
+                dt = np.result_type(*[d.dtype for d in self._src_data])
             else:
                 dt = self._src_data.dtype
 
@@ -986,7 +986,7 @@ class Field(tree.Leaf):
                 arrfunc = np.ma.array
             arr = arrfunc(dat, dtype=dat.dtype.name, copy=self.deep_meta["copy"])
         elif isinstance(dat, (list, tuple)):
-            dt = dat[0].dtype.name
+            dt = np.result_type(*[d.dtype for d in dat]).name
             # tmp = [np.array(d, dtype=dt, copy=self.deep_meta["copy"]) for d in dat]
             tmp = []
             for d in dat:
-- 
2.43.0


From e1e692d62d2b83c6355e2788fe4e3969b3c558e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:19 +0000
Subject: [PATCH 46/54] fix: components collected into a vector keep the units
 of the axes

---
 viscid/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/field.py b/viscid/field.py
index b6c001a..1a39df3 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -333,7 +333,7 @@ def scalar_fields_to_vector(fldlist, name="NoName", **kwargs):
     time = fldlist[0].time
     # shape = fldlist[0].data.shape
 
-    _crds = type(crds)(crds.get_clist())
+    _crds = type(crds)(crds.get_clist(), units=crds.units)
 
     # component fields will already be transposed when filling caches, so
     # the source will already be xyz
-- 
2.43.0


From bae41eb5a9bbf8b0cf98a3072714ed912b0f403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:19 +0000
Subject: [PATCH 47/54] fix: coordinates with reflections applied keep their
 units

---
 viscid/coordinate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index b168cca..27d3a2c 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -421,7 +421,7 @@ class StructuredCrds(Coordinates):
         """
         if len(self.reflect_axes) > 0:
             return type(self)(self.get_clist(), has_cc=self.has_cc,
-                              dtype=self.dtype)
+                              dtype=self.dtype, units=self.units)
         else:
             return self
 
-- 
2.43.0


From e36649792bc5d219e1ebcba3441c0ee059e35525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:19 +0000
Subject: [PATCH 48/54] fix: extending boundaries keeps the units of the axes

---
 viscid/calculator/calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 11a6b41..231122a 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -814,7 +814,7 @@ def extend_boundaries(fld, nl=1, nh=1, axes='all', nr_comp=None, order=1,
         crdtype = fld.crds.crdtype
         if 'nonuniform' not in crdtype:
             crdtype = crdtype.replace('uniform', 'nonuniform')
-        new_crds = viscid.wrap_crds(crdtype, new_clist)
+        new_crds = viscid.wrap_crds(crdtype, new_clist, units=fld.crds.units)
 
     return fld.wrap(new_dat, context=dict(crds=new_crds))
 
-- 
2.43.0


From b48fccf1232708e1bdeee80745fd1ce2dc0f9cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:16 +0000
Subject: [PATCH 49/54] fix: the convective derivative of a vector has the time
 of its operands

---
 viscid/calculator/calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 231122a..2dd0732 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -339,7 +339,7 @@ def convective_deriv(a, b=None, bnd=True):
         a = a['x=1:-1, y=1:-1, z=1:-1']
 
     if b.nr_comps > 1:
-        dest = viscid.zeros(a.crds, nr_comps=3, center=a.center)
+        dest = viscid.zeros(a.crds, nr_comps=3, center=a.center, time=a.time)
         a_views, dest_views = a.component_views(), dest.component_views()
         for j, b_j in enumerate(b.component_fields()):
             grad_bj = grad(b_j, bnd=False)
-- 
2.43.0


From 9b44dc2eca78afbc99d4154a8cb8523447a0af11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:46 +0000
Subject: [PATCH 50/54] fix: negative elapsed times keep their sign for every
 part of the time string

---
 viscid/npdatetime.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index 62003ce..bf9e9d2 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -155,7 +155,9 @@ def _as_timedelta64_scalar(time, unit=None):
     flt_unit = unit if unit else 's'
     # turn 'H:M:S.ms', 'M:S.ms', 'S.ms' into floating point seconds
     if isinstance(time, string_types):# and ':' in time:
-        time = [float(t) for t in time.lstrip('T').split(':')][::-1]
+        time = time.lstrip('T').strip()
+        sign = -1.0 if time.startswith('-') else 1.0
+        time = [float(t) for t in time[time.startswith('-'):].split(':')][::-1]
         if len(time) > 1 and unit is not None:
             raise ValueError("When giving time as a string, units are automatic")
         if len(time) > 3:
@@ -163,7 +165,7 @@ def _as_timedelta64_scalar(time, unit=None):
         t_flt = 0.0
         for factor, t in zip([1, 60, 60 * 60], time):
             t_flt += factor * t
-        time = t_flt
+        time = sign * t_flt
         flt_unit = 's'
     # turn floating point time into integer with the correct unit
     if is_datetime_like(time):
@@ -738,19 +740,19 @@ def format_time(time, fmt='.02f', basetime=None):
 
     if fmt in ('dhms', 'dhmss', 'hms', 'hmss'):
         # These are special time-style formatters
-        if fmt.startswith('d'):
-            days = int(as_timedelta64(dttime) / np.timedelta64(1, 'D'))
-            if days == 1:
-                days_str = '{0} day '.format(days)
-            else:
-                days_str = '{0} days '.format(days)
-            ret = datetime.strftime(dttime, days_str + '%H:%M:%S')
-        elif is_datetime_like(time):
+        if not fmt.startswith('d') and is_datetime_like(time):
             ret = datetime.strftime(dttime, '%H:%M:%S')
         else:
+            # times before 0 have the digits of the time until 0
+            seconds = int(as_timedelta64(dttime) / np.timedelta64(1, 's'))
+            ret = '-' if seconds < 0 else ''
+            minutes, seconds = divmod(abs(seconds), 60)
+            hours, minutes = divmod(minutes, 60)
             # hours of an elapsed time don't wrap around at midnight
-            hours = int(as_timedelta64(dttime) / np.timedelta64(1, 'h'))
-            ret = '{0:02d}'.format(hours) + datetime.strftime(dttime, ':%M:%S')
+            if fmt.startswith('d'):
+                days, hours = divmod(hours, 24)
+                ret += '{0} day{1} '.format(days, '' if days == 1 else 's')
+            ret += '{0:02d}:{1:02d}:{2:02d}'.format(hours, minutes, seconds)
         if fmt.endswith('ss'):
             _tt = time_diff(dttime, basetime) / np.timedelta64(1, 's')
             ret += " ({0:06d})".format(int(_tt))
-- 
2.43.0


From 63779546d1f0867e6068cb86364693f82d534d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:46 +0000
Subject: [PATCH 51/54] fix: as_layout keeps the mask of masked data

---
 viscid/field.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 1a39df3..bb64d83 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -940,7 +940,10 @@ class Field(tree.Leaf):
                 raise RuntimeError("I should not be here")
 
             nr_comps = self.nr_comps
-            data_dest = np.empty(self.shape, dtype=self.dtype)
+            if isinstance(self._xyz_src_data, np.ma.MaskedArray):
+                data_dest = np.ma.empty(self.shape, dtype=self.dtype)
+            else:
+                data_dest = np.empty(self.shape, dtype=self.dtype)
             for i in range(nr_comps):
                 # NOTE: I wonder if this is the fastest way to reorder
                 data_dest[i, ...] = self._xyz_src_data[..., i]
@@ -955,7 +958,10 @@ class Field(tree.Leaf):
 
             nr_comps = self.nr_comps
             dtype = self.dtype
-            data_dest = np.empty(self.shape, dtype=dtype)
+            if isinstance(self._xyz_src_data, np.ma.MaskedArray):
+                data_dest = np.ma.empty(self.shape, dtype=dtype)
+            else:
+                data_dest = np.empty(self.shape, dtype=dtype)
             for i in range(nr_comps):
                 data_dest[..., i] = self._xyz_src_data[i]
 
-- 
2.43.0


From 8c7a135f519ab26bdde6c81775f369adc19ad207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:46 +0000
Subject: [PATCH 52/54] fix: operators keep the mask of the other operand

---
 viscid/field.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index bb64d83..b8ece74 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -413,6 +413,15 @@ def rewrap_field(fld):
     return ret
 
 
+def _operand_array(other):
+    """same as `other.__array__()`, except that masked data stays masked"""
+    if isinstance(other, Field):
+        other = other.data
+    if isinstance(other, np.ma.MaskedArray):
+        return other
+    return other.__array__()
+
+
 class _FldSlcProxy(object):
     parent = None
     def __init__(self, parent, do_floatify=True):
@@ -1975,7 +1984,7 @@ class Field(tree.Leaf):
     def _ow(self, other):
         # hack because Fields don't broadcast correctly after a ufunc?
         try:
-            return other.__array__()
+            return _operand_array(other)
         except AttributeError:
             return other
 
@@ -2377,7 +2386,7 @@ class ScalarField(Field):
     def _ow(self, other):
         # put the components of a vector first so numpy can broadcast
         if isinstance(other, VectorField):
-            return np.moveaxis(other.__array__(), other.nr_comp, 0)
+            return np.moveaxis(_operand_array(other), other.nr_comp, 0)
         return super(ScalarField, self)._ow(other)
 
 
@@ -2470,12 +2479,12 @@ class VectorField(Field):
         try:
             if isinstance(other, ScalarField):
                 if self.layout == 'interlaced':
-                    return other.__array__()[..., np.newaxis]
+                    return _operand_array(other)[..., np.newaxis]
                 elif self.layout == 'flat':
-                    return other.__array__()[np.newaxis, ...]
+                    return _operand_array(other)[np.newaxis, ...]
             elif isinstance(other, VectorField):
-                return np.moveaxis(other.__array__(), other.nr_comp, self.nr_comp)
-            return other.__array__()
+                return np.moveaxis(_operand_array(other), other.nr_comp, self.nr_comp)
+            return _operand_array(other)
         except AttributeError:
             return other
 
-- 
2.43.0


From f106e5d132479c05c0720fb78c73554f7299efb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:55 +0000
Subject: [PATCH 53/54] fix: out of range indices of cell centered fields raise
 an IndexError

slice_keep / slice_reduce of the index one past either end of a cell
centered axis picked the neighbouring node and returned an empty field.
---
 viscid/coordinate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 27d3a2c..d32190c 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -749,6 +749,10 @@ class StructuredCrds(Coordinates):
                     sliced_clist.append([axis, crd_arrs_nc[i][slc]])
 
             elif hasattr(slc, "__index__"):
+                n_crds = len(crd_arrs[i])
+                if not -n_crds <= slc < n_crds:
+                    raise IndexError("index {0} is out of bounds for axis {1} "
+                                     "with size {2}".format(slc, axis, n_crds))
                 cval = crd_arrs_nc[i][slc]
                 reduced.append([axis, cval])
 
-- 
2.43.0


From 334d11549af8ae9839397748c0ccd93fcb434b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:22 +0000
Subject: [PATCH 54/54] fix: extend_boundaries_ndarr accepts its default axes

---
 viscid/calculator/calc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 2dd0732..fff5023 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -669,6 +669,8 @@ def extend_boundaries_ndarr(arr, nl=1, nh=1, axes='all', nr_comp=None,
     Returns:
         ndarray: A new extended / padded ndarray
     """
+    if isinstance(axes, viscid.string_types) and axes == 'all':
+        axes = list(range(arr.ndim - (0 if nr_comp is None else 1)))
     if nr_comp is not None:
         axes = [ax if ax < nr_comp else ax + 1 for ax in axes]
 
-- 
2.43.0


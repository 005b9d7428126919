From 62bd91cf83863891f587b149c074c1bab689c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:51 +0000
Subject: [PATCH 01/45] fix: load networks with h5py versions that have no
 Dataset.value

---
 brainstorm/structure/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index a0f4dbf..88d39b5 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -95,10 +95,10 @@ class Network(Seedable):
             :meth:`.save_as_hdf5`
         """
         with h5py.File(filename, 'r') as f:
-            description = json.loads(f['description'].value.decode())
+            description = json.loads(f['description'][()].decode())
             net = create_from_description(description)
             net.handler.set_from_numpy(net.buffer.parameters,
-                                       f['parameters'].value)
+                                       f['parameters'][()])
         return net
 
     def __init__(self, layers, buffer_manager, architecture, seed=None,
-- 
2.43.0


From 5682fb8e27782d6ffe0eb0e239e2f994d5f978f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:33 +0000
Subject: [PATCH 02/45] fix: saving a network replaces the old file only when
 the new one is complete

---
 brainstorm/structure/network.py |  5 +--
 brainstorm/utils.py             | 54 +++++++++++++++++++++++++++++++++
 2 files changed, 57 insertions(+), 2 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index 88d39b5..f8a8232 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -21,7 +21,8 @@ from brainstorm.structure.layout import create_layout
 from brainstorm.structure.view_references import (order_and_copy_modifiers,
                                                   prune_view_references,
                                                   resolve_references)
-from brainstorm.utils import NetworkValidationError, get_brainstorm_info
+from brainstorm.utils import (NetworkValidationError, get_brainstorm_info,
+                              new_hdf5_file)
 from brainstorm.value_modifiers import GradientModifier
 
 __all__ = ['Network']
@@ -523,7 +524,7 @@ class Network(Seedable):
             comment (Optional[str]):
                 An optional comment that will be saved inside the file.
         """
-        with h5py.File(filename, 'w') as f:
+        with new_hdf5_file(filename) as f:
             f.attrs.create('info', get_brainstorm_info())
             f.attrs.create('format', b'Network file v1.0')
             if comment:
diff --git a/brainstorm/utils.py b/brainstorm/utils.py
index 375f72c..67ad4cf 100644
--- a/brainstorm/utils.py
+++ b/brainstorm/utils.py
@@ -2,12 +2,16 @@
 # coding=utf-8
 
 from __future__ import division, print_function, unicode_literals
+from contextlib import contextmanager
 from datetime import datetime
 from functools import reduce  # Valid in Python 2.6+, required in Python 3
 import math
 import operator
+import os
 import re
 
+import h5py
+
 from brainstorm.__about__ import __version__
 
 
@@ -220,3 +224,53 @@ def silence():
 def get_brainstorm_info():
     info = 'Created with brainstorm {}'.format(__version__)
     return info.encode()
+
+
+@contextmanager
+def replace_when_complete(filename):
+    """
+    Write a file such that it replaces ``filename`` only once it is complete.
+
+    Provides the name of a temporary file in the same directory that should be
+    written to. It is moved to ``filename`` afterwards, or removed in case of
+    an error. So neither a crash nor an error ever damages an existing file.
+
+    Args:
+        filename (str):
+            Name of the file to be written.
+    """
+    filename = os.path.realpath(filename)
+    temp_name = '{}.{}.tmp'.format(filename, os.getpid())
+    try:
+        yield temp_name
+        with open(temp_name, 'rb+') as f:
+            os.fsync(f.fileno())
+        getattr(os, 'replace', os.rename)(temp_name, filename)
+    except BaseException:
+        try:
+            os.remove(temp_name)
+        except OSError:
+            pass
+        raise
+
+
+@contextmanager
+def new_hdf5_file(filename):
+    """
+    Create an HDF5 file that replaces ``filename`` only once it is complete.
+
+    The file is assembled in memory, because HDF5 does not report all errors
+    that occur while writing to disk.
+
+    Args:
+        filename (str):
+            Name of the file to be written.
+    """
+    with h5py.File(filename, 'w', driver='core', backing_store=False) as f:
+        yield f
+        f.flush()
+        image = f.id.get_file_image()
+
+    with replace_when_complete(filename) as temp_name:
+        with open(temp_name, 'wb') as f:
+            f.write(image)
-- 
2.43.0


From 60e15487652abc322bbeecd513b953538be80578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:33 +0000
Subject: [PATCH 03/45] fix: saving logs replaces the old file only when the
 new one is complete

---
 brainstorm/hooks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 7dd32e4..9ea9289 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -7,7 +7,6 @@ import signal
 import sys
 from collections import OrderedDict
 
-import h5py
 import numpy as np
 from six import string_types
 
@@ -15,7 +14,8 @@ from brainstorm.describable import Describable
 from brainstorm import optional
 from brainstorm.structure.network import Network
 from brainstorm.tools import evaluate
-from brainstorm.utils import get_by_path, progress_bar, get_brainstorm_info
+from brainstorm.utils import (get_brainstorm_info, get_by_path, new_hdf5_file,
+                              progress_bar)
 
 
 class Hook(Describable):
@@ -171,7 +171,7 @@ class SaveLogs(Hook):
         self.filename = filename
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
-        with h5py.File(self.filename, 'w') as f:
+        with new_hdf5_file(self.filename) as f:
             f.attrs.create('info', get_brainstorm_info())
             f.attrs.create('format', b'Logs file v1.0')
             SaveLogs._save_recursively(f, logs)
-- 
2.43.0


From c6377397c05332e6021182789c41586582263318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 04/45] fix: saving extracted features replaces the old file
 only when the new one is complete

---
 brainstorm/tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 2b00f63..1ca9c01 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -2,7 +2,6 @@
 # coding=utf-8
 from __future__ import division, print_function, unicode_literals
 
-import h5py
 import numpy as np
 import six
 
@@ -10,7 +9,8 @@ from brainstorm import layers, Network, initializers
 from brainstorm.scorers import (aggregate_losses_and_scores,
                                 gather_losses_and_scores)
 from brainstorm.training.trainer import run_network
-from brainstorm.utils import get_by_path, get_brainstorm_info
+from brainstorm.utils import (get_by_path, get_brainstorm_info,
+                              new_hdf5_file)
 
 __all__ = ['draw_network', 'evaluate', 'extract', 'extract_and_save',
            'print_network_info', 'get_in_out_layers', 'create_net_from_spec']
@@ -155,7 +155,7 @@ def extract_and_save(network, iter, buffer_names, file_name):
     nr_items = 0
     ds = []
 
-    with h5py.File(file_name, 'w') as f:
+    with new_hdf5_file(file_name) as f:
         f.attrs.create('info', get_brainstorm_info())
         f.attrs.create('format', b'Buffers file v1.0')
 
-- 
2.43.0


From 850b05809da5ff7bab02d12a97794fd6178d5318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 05/45] fix: SaveBestNetwork does not count a network as best
 if saving it failed

---
 brainstorm/hooks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 9ea9289..a60c5b8 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -139,8 +139,6 @@ class SaveBestNetwork(Hook):
             imp = last > self.best_so_far
 
         if imp:
-            self.best_so_far = last
-            self.best_t = epoch_nr if self.timescale == 'epoch' else update_nr
             params = net.get('parameters')
             if self.filename is not None:
                 self.message("{} improved (criterion: {}). Saving network to "
@@ -151,6 +149,8 @@ class SaveBestNetwork(Hook):
                 self.message("{} improved (criterion: {}). Caching parameters".
                              format(self.log_name, self.criterion))
                 self.parameters = params
+            self.best_so_far = last
+            self.best_t = epoch_nr if self.timescale == 'epoch' else update_nr
         else:
             self.message("Last saved parameters at {} {} when {} was {}".
                          format(self.timescale, self.best_t, self.log_name,
-- 
2.43.0


From a95bffd76645b5408c4788a86dbbf8c919624c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 06/45] fix: a failed allocation does not leave the buffers
 with the wrong size

---
 brainstorm/structure/buffers.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/brainstorm/structure/buffers.py b/brainstorm/structure/buffers.py
index ec773ea..271f65a 100644
--- a/brainstorm/structure/buffers.py
+++ b/brainstorm/structure/buffers.py
@@ -70,28 +70,31 @@ class BufferManager(object):
         if time_size == self.time_size and batch_size == self.batch_size:
             return self.views  # lazy
 
-        self.time_size = time_size
-        self.batch_size = batch_size
         total_size, slices, shapes = get_total_size_slices_and_shapes(
             self.hubs, time_size, batch_size)
 
+        full_buffer = self.full_buffer
         if total_size > self.size:
-            self.full_buffer = self.handler.allocate((total_size,))
-            self.size = total_size
+            full_buffer = self.handler.allocate((total_size,))
 
-        self.buffers = [self.full_buffer[slices[i]].reshape(shapes[i])
-                        for i in range(len(self.hubs))]
+        buffers = [full_buffer[slices[i]].reshape(shapes[i])
+                   for i in range(len(self.hubs))]
 
-        parameters = None
         if self.views is not None:
             # copy the parameters
-            parameters = self.handler.get_numpy_copy(self.views.parameters)
+            self.handler.set_from_numpy(
+                create_buffer_views_from_layout(
+                    self.layout['parameters'], buffers, self.hubs),
+                self.handler.get_numpy_copy(self.views.parameters))
 
+        # nothing can fail anymore, so the state stays consistent
         self.views = create_buffer_views_from_layout(
-            self.layout, self.buffers, self.hubs, existing_view=self.views)
-
-        if parameters is not None:
-            self.handler.set_from_numpy(self.views.parameters, parameters)
+            self.layout, buffers, self.hubs, existing_view=self.views)
+        self.buffers = buffers
+        self.full_buffer = full_buffer
+        self.size = max(self.size, total_size)
+        self.time_size = time_size
+        self.batch_size = batch_size
 
         return self.views
 
-- 
2.43.0


From 0f69c652c76d768ec762b733ded3c5bf5c7abc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 07/45] fix: Undivided does not let other iterators modify its
 data

---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index aef02db..530d128 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -394,7 +394,7 @@ class Undivided(DataIterator):
         self.total_size = int(sum(d.size for d in self.data.values()))
 
     def __call__(self, handler=None):
-        yield self.data
+        yield dict(self.data)
 
 
 class Minibatches(DataIterator):
-- 
2.43.0


From 0b7756ef9e5eea0de8bad28e6b2810b9c8c092fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 08/45] fix: Flip does not modify the original data in place

---
 brainstorm/data_iterators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 530d128..245d2cc 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -179,6 +179,7 @@ class Flip(DataIterator):
         for data in self.iter(handler):
             for name in self.prob_dict.keys():
                 assert isinstance(data[name], np.ndarray)
+                data[name] = data[name].copy()
                 for i in range(data[name].shape[1]):
                     if self.rnd.random_sample() < self.prob_dict[name]:
                         data[name][:, i, ...] = data[name][:, i, :, ::-1, :]
-- 
2.43.0


From 86e5c5c7edc90e44101f7104e91138f37d1d7eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 09/45] fix: Dropout scales the deltas like the activations

---
 brainstorm/layers/dropout_layer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/brainstorm/layers/dropout_layer.py b/brainstorm/layers/dropout_layer.py
index 88c0116..6830e61 100644
--- a/brainstorm/layers/dropout_layer.py
+++ b/brainstorm/layers/dropout_layer.py
@@ -47,6 +47,10 @@ class DropoutLayerImpl(Layer):
             _h.copy_to(buffers.inputs.default, buffers.outputs.default)
 
     def backward_pass(self, buffers):
-        self.handler.mult_add_tt(buffers.output_deltas.default,
-                                 buffers.internals.mask,
-                                 buffers.input_deltas.default)
+        _h = self.handler
+
+        tmp = _h.allocate(buffers.output_deltas.default.shape)
+        _h.mult_tt(buffers.output_deltas.default, buffers.internals.mask,
+                   out=tmp)
+        _h.mult_add_st(1 / (1 - self.drop_prob), tmp,
+                       out=buffers.input_deltas.default)
-- 
2.43.0


From a35e3cbf4799f3fca8b877fea7e49ed36d7807ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 10/45] fix: clearing the context does not erase the last time
 step of the data

---
 brainstorm/structure/buffers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/brainstorm/structure/buffers.py b/brainstorm/structure/buffers.py
index 271f65a..78ab2b5 100644
--- a/brainstorm/structure/buffers.py
+++ b/brainstorm/structure/buffers.py
@@ -144,8 +144,7 @@ class BufferManager(object):
         for hub, buf in zip(self.hubs, self.buffers):
             if hub.btype != 2 or not hub.context_size:
                 continue
-            self.handler.fill(
-                buf[self.time_size - hub.context_size:], 0.)
+            self.handler.fill(buf[self.time_size:], 0.)
 
     def clear_backward_buffers(self):
         for h, b in zip(self.hubs, self.buffers):
-- 
2.43.0


From fba81074cc9df482a586bc70c1ee0cace784cbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:16 +0000
Subject: [PATCH 11/45] fix: a failed handler switch does not lose the
 parameters

---
 brainstorm/structure/buffers.py | 12 ++++--------
 brainstorm/structure/network.py |  2 +-
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/brainstorm/structure/buffers.py b/brainstorm/structure/buffers.py
index 78ab2b5..4898927 100644
--- a/brainstorm/structure/buffers.py
+++ b/brainstorm/structure/buffers.py
@@ -99,18 +99,14 @@ class BufferManager(object):
         return self.views
 
     def set_handler(self, new_handler):
-        self.full_buffer = None
-        self.size = -1
-        self.time_size = -1
-        self.batch_size = -1
         parameters = None
         if self.views is not None:
             parameters = self.handler.get_numpy_copy(self.views.parameters)
-        self.views = None
-        self.handler = new_handler
-        self.resize(0, 0)
+        # only switch once everything worked with the new handler
+        new = BufferManager(self.layout, self.hubs, new_handler)
         if parameters is not None:
-            self.handler.set_from_numpy(self.views.parameters, parameters)
+            new_handler.set_from_numpy(new.views.parameters, parameters)
+        self.__dict__.update(new.__dict__)
 
     def get_context(self):
         if self.buffers is None:
diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index f8a8232..7171a5e 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -371,8 +371,8 @@ class Network(Seedable):
             new_handler (brainstorm.handlers.base_handler.Handler):
                 The new handler this network should use.
         """
-        self.handler = new_handler
         self._buffer_manager.set_handler(new_handler)
+        self.handler = new_handler
         self.buffer = self._buffer_manager.views
         for layer in self.layers.values():
             layer.set_handler(new_handler)
-- 
2.43.0


From 22abe96066b52edb96dbf22927a9b65765703ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:31 +0000
Subject: [PATCH 12/45] fix: ProgressBar works when training is continued

---
 brainstorm/hooks.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index a60c5b8..7a4c684 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -2,7 +2,6 @@
 # coding=utf-8
 from __future__ import division, print_function, unicode_literals
 
-import math
 import signal
 import sys
 from collections import OrderedDict
@@ -825,23 +824,33 @@ class ProgressBar(Hook):
         super(ProgressBar, self).__init__(None, 'update', 1)
         self.length = None
         self.bar = None
+        self.bar_epoch_nr = None
+        self.bar_position = 0
 
     def start(self, net, stepper, verbose, named_data_iters):
         assert 'training_data_iter' in named_data_iters
         self.length = named_data_iters['training_data_iter'].length
+        self.bar = None
+        self.bar_epoch_nr = None
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
-        assert epoch_nr == 0 or math.ceil(update_nr / self.length) == epoch_nr
-        if update_nr % self.length == 1:
+        if self.bar_epoch_nr is None:
+            # called before the first update of this training run
+            self.bar_epoch_nr = epoch_nr
+            return
+
+        if self.bar_epoch_nr != epoch_nr:
+            self.bar_epoch_nr = epoch_nr
+            self.bar_position = 0
             self.bar = progress_bar(self.length)
             print(next(self.bar), end='')
-            sys.stdout.flush()
-        elif update_nr % self.length == 0:
-            if self.bar:
-                print(self.bar.send(self.length))
-        else:
-            print(self.bar.send(update_nr % self.length), end='')
-            sys.stdout.flush()
+
+        self.bar_position += 1
+        if self.bar_position < self.length:
+            print(self.bar.send(self.bar_position), end='')
+        elif self.bar_position == self.length:
+            print(self.bar.send(self.length))
+        sys.stdout.flush()
 
 
 # ----------------------------- Miscellaneous ------------------------------- #
-- 
2.43.0


From 06a52ce3c1f448c1858c930d7a606b20cafe10b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:31 +0000
Subject: [PATCH 13/45] fix: gradients of the LSTM layers take the context into
 account

---
 brainstorm/layers/clockwork_lstm_layer.py | 14 +++++++-------
 brainstorm/layers/lstm_layer.py           | 12 ++++++------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/brainstorm/layers/clockwork_lstm_layer.py b/brainstorm/layers/clockwork_lstm_layer.py
index 37819c8..ff510ac 100644
--- a/brainstorm/layers/clockwork_lstm_layer.py
+++ b/brainstorm/layers/clockwork_lstm_layer.py
@@ -190,7 +190,7 @@ class ClockworkLstmLayerImpl(Layer):
         y = buffers.outputs.default
         deltas = buffers.output_deltas.default
 
-        dy = _h.allocate(y.shape)
+        dy = _h.zeros(y.shape)
 
         time_size, batch_size = x.shape[0], x.shape[1]
 
@@ -303,10 +303,10 @@ class ClockworkLstmLayerImpl(Layer):
         _h.dot_add_mm(flat_dOa, flat_outputs, dRo, transa=True)
         _h.dot_add_mm(flat_dZa, flat_outputs, dRz, transa=True)
 
-        _h.dot_add_mm(dIa[0], dy[-1], dRi, transa=True)
-        _h.dot_add_mm(dFa[0], dy[-1], dRf, transa=True)
-        _h.dot_add_mm(dOa[0], dy[-1], dRo, transa=True)
-        _h.dot_add_mm(dZa[0], dy[-1], dRz, transa=True)
+        _h.dot_add_mm(dIa[0], y[-1], dRi, transa=True)
+        _h.dot_add_mm(dFa[0], y[-1], dRf, transa=True)
+        _h.dot_add_mm(dOa[0], y[-1], dRo, transa=True)
+        _h.dot_add_mm(dZa[0], y[-1], dRz, transa=True)
 
         # Other Peephole connections
         dWcif_tmp = _h.allocate(flat_cell.shape)
@@ -318,9 +318,9 @@ class ClockworkLstmLayerImpl(Layer):
         _h.add_tt(dpf, dWc_tmp, dpf)
 
         dWcif_tmp = _h.allocate(dIa[0].shape)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dIa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpi, dWc_tmp, dpi)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dFa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpf, dWc_tmp, dpf)
diff --git a/brainstorm/layers/lstm_layer.py b/brainstorm/layers/lstm_layer.py
index 8433706..972903c 100644
--- a/brainstorm/layers/lstm_layer.py
+++ b/brainstorm/layers/lstm_layer.py
@@ -255,10 +255,10 @@ class LstmLayerImpl(Layer):
         _h.dot_add_mm(flat_dOa, flat_outputs, dRo, transa=True)
         _h.dot_add_mm(flat_dZa, flat_outputs, dRz, transa=True)
 
-        _h.dot_add_mm(dIa[0], dy[-1], dRi, transa=True)
-        _h.dot_add_mm(dFa[0], dy[-1], dRf, transa=True)
-        _h.dot_add_mm(dOa[0], dy[-1], dRo, transa=True)
-        _h.dot_add_mm(dZa[0], dy[-1], dRz, transa=True)
+        _h.dot_add_mm(dIa[0], y[-1], dRi, transa=True)
+        _h.dot_add_mm(dFa[0], y[-1], dRf, transa=True)
+        _h.dot_add_mm(dOa[0], y[-1], dRo, transa=True)
+        _h.dot_add_mm(dZa[0], y[-1], dRz, transa=True)
 
         # Other Peephole connections
         dWcif_tmp = _h.allocate(flat_cell.shape)
@@ -270,9 +270,9 @@ class LstmLayerImpl(Layer):
         _h.add_tt(dpf, dWc_tmp, dpf)
 
         dWcif_tmp = _h.allocate(dIa[0].shape)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dIa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpi, dWc_tmp, dpi)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dFa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpf, dWc_tmp, dpf)
-- 
2.43.0


From ef5efaef321d2a789baa824a2e78a0c1ea3cee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:18 +0000
Subject: [PATCH 14/45] fix: FullyConnected and Convolution2D keep gradients
 from other layers

Other layers can be connected to the parameters of a layer and add to their
gradients, which were overwritten by the backward pass of these two layers.
---
 brainstorm/handlers/numpy_handler.py       | 2 --
 brainstorm/layers/fully_connected_layer.py | 6 ++++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index 64a344f..c481391 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -115,8 +115,6 @@ class NumpyHandler(Handler):
         num_output_pixels = out_deltas.shape[1] * out_deltas.shape[2]
         num_kernel_params = np.prod(kernel_shape)
 
-        dparams.fill(0.0)
-        dbias.fill(0.0)
         col = np.zeros((num_output_pixels, num_kernel_params),
                        dtype=self.dtype)
 
diff --git a/brainstorm/layers/fully_connected_layer.py b/brainstorm/layers/fully_connected_layer.py
index 79f46d4..dedaa2e 100644
--- a/brainstorm/layers/fully_connected_layer.py
+++ b/brainstorm/layers/fully_connected_layer.py
@@ -74,5 +74,7 @@ class FullyConnectedLayerImpl(Layer):
         # calculate in_deltas and gradients
         _h.inplace_act_func_deriv[self.activation](outputs, out_deltas)
         _h.dot_add_mm(out_deltas, W, out=in_deltas)
-        _h.dot_mm(out_deltas, inputs, out=dW, transa=True)
-        _h.sum_t(out_deltas, axis=0, out=dbias)
+        _h.dot_add_mm(out_deltas, inputs, out=dW, transa=True)
+        dbias_tmp = _h.allocate(dbias.shape)
+        _h.sum_t(out_deltas, axis=0, out=dbias_tmp)
+        _h.add_tt(dbias, dbias_tmp, dbias)
-- 
2.43.0


From 7595626151a6a7091a8e8a1907b3f350dca5c436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:18 +0000
Subject: [PATCH 15/45] fix: MonitorLayerDeltas raised a KeyError for the input
 deltas

---
 brainstorm/hooks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 7a4c684..278f0a0 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -242,9 +242,9 @@ class MonitorLayerDeltas(Hook):
         for key, v in net.buffer[self.layer_name].input_deltas.items():
             key_log = in_deltas_log[key] = OrderedDict()
             v = net.handler.get_numpy_copy(v)
-            key_log[key]['min'] = v.min()
-            key_log[key]['avg'] = v.mean()
-            key_log[key]['max'] = v.max()
+            key_log['min'] = v.min()
+            key_log['avg'] = v.mean()
+            key_log['max'] = v.max()
 
         return log
 
-- 
2.43.0


From 1b720f19757e79a21dcfef951c8311ef1fca63a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:18 +0000
Subject: [PATCH 16/45] fix: ForwardStepper called a method that does not exist

---
 brainstorm/training/steppers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/training/steppers.py b/brainstorm/training/steppers.py
index 286e547..4e0067b 100644
--- a/brainstorm/training/steppers.py
+++ b/brainstorm/training/steppers.py
@@ -40,7 +40,7 @@ class ForwardStepper(TrainingStepper):
 
     def run(self):
         self.net.forward_pass(training_pass=self.use_training_pass)
-        return self.net.get_loss_value()
+        return self.net.get_loss_values()
 
 
 class SgdStepper(TrainingStepper):
-- 
2.43.0


From d8d588cc438742d5028655e4d6f8ea33c9f0dc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:18 +0000
Subject: [PATCH 17/45] fix: networks that were not initialized can be loaded

---
 brainstorm/structure/network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index 7171a5e..f1a1419 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -71,7 +71,9 @@ class Network(Seedable):
     def __new_from_description__(cls, description):
         net = Network.from_architecture(description['architecture'])
         net.set_handler(create_from_description(description['handler']))
-        net.initialize(create_from_description(description['initializers']))
+        if description['initializers']:
+            net.initialize(
+                create_from_description(description['initializers']))
         net.set_gradient_modifiers(
             create_from_description(description['gradient_modifiers']))
         net.set_weight_modifiers(
-- 
2.43.0


From fde275cfb86405f91916422f98bbb65e01529873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:18 +0000
Subject: [PATCH 18/45] fix: Pad works with a size of zero

---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 245d2cc..6b0841d 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -319,7 +319,7 @@ class Pad(DataIterator):
                 size = self.size_dict[name]
                 val = self.value_dict.get(name, 0.0)
                 new_data = val * np.ones((t, b, h + 2 * size, w + 2 * size, c))
-                new_data[:, :, size: -size, size: -size, :] = data[name]
+                new_data[:, :, size: size + h, size: size + w, :] = data[name]
                 data[name] = new_data
             yield data
 
-- 
2.43.0


From e150898ab3d0baa76a8805c8d58ac3d56636a8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:18 +0000
Subject: [PATCH 19/45] fix: initializing a network does not modify the given
 dictionary

---
 brainstorm/structure/network.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index f1a1419..b8d8bf1 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -248,7 +248,7 @@ class Network(Seedable):
         all_parameters = {k: v.parameters
                           for k, v in self.buffer.items()
                           if isinstance(v, BufferView) and 'parameters' in v}
-        _replace_lists_with_array_initializers(init_refs)
+        init_refs = _replace_lists_with_array_initializers(init_refs)
         initializers, fallback = resolve_references(all_parameters, init_refs)
         init_rnd = self.rnd.create_random_state(seed)
         for layer_name, views in sorted(all_parameters.items()):
@@ -548,7 +548,7 @@ def _update_references_with_dict(refs, ref_dict):
     if refs is None:
         references = dict()
     elif isinstance(refs, dict):
-        references = refs
+        references = dict(refs)
     else:
         references = {'default': refs}
 
@@ -562,8 +562,11 @@ def _update_references_with_dict(refs, ref_dict):
 
 
 def _replace_lists_with_array_initializers(ref_dict):
+    references = {}
     for key, value in ref_dict.items():
         if isinstance(value, dict):
-            _replace_lists_with_array_initializers(value)
+            value = _replace_lists_with_array_initializers(value)
         elif isinstance(value, (list, np.ndarray)):
-            ref_dict[key] = ArrayInitializer(value)
+            value = ArrayInitializer(value)
+        references[key] = value
+    return references
-- 
2.43.0


From e07a7a4f879c08348eb94654986b701d0d712eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:40 +0000
Subject: [PATCH 20/45] fix: MaskValues and FreezeValues work after loading a
 network

The mask became a list which could not be used anymore, and the frozen weights
were forgotten.
---
 brainstorm/value_modifiers.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index 0f91e75..950f3b5 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -137,6 +137,10 @@ class MaskValues(ValueModifier):
         self.mask = mask
         self.device_mask = None
 
+    def __init_from_description__(self, description):
+        super(MaskValues, self).__init_from_description__(description)
+        self.mask = np.array(self.mask)
+
     def __call__(self, handler, view):
         if (self.device_mask is None or
                 not isinstance(self.device_mask, handler.array_type)):
@@ -159,13 +163,18 @@ class FreezeValues(ValueModifier):
     weights to affect.
     """
 
-    __undescribed__ = {'weights', 'device_weights'}
+    __undescribed__ = {'device_weights'}
 
     def __init__(self, weights=None):
         super(FreezeValues, self).__init__()
         self.weights = weights
         self.device_weights = None
 
+    def __init_from_description__(self, description):
+        super(FreezeValues, self).__init_from_description__(description)
+        weights = description.get('weights')
+        self.weights = None if weights is None else np.array(weights)
+
     def __call__(self, handler, view):
         if self.weights is None:
             self.weights = handler.get_numpy_copy(view)
-- 
2.43.0


From 40a80bf7f607b6a3307bdf6411259af46da42e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:40 +0000
Subject: [PATCH 21/45] fix: modifiers from overlapping patterns are applied in
 a fixed order

The order depended on the hash seed and on memory addresses.
---
 brainstorm/structure/view_references.py | 29 +++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/brainstorm/structure/view_references.py b/brainstorm/structure/view_references.py
index b7a26b3..00c2d5f 100644
--- a/brainstorm/structure/view_references.py
+++ b/brainstorm/structure/view_references.py
@@ -68,6 +68,27 @@ def get_key_to_references_mapping(keys, references):
 Node = namedtuple('Node', ['content', 'defaults', 'fallback'])
 
 
+class OrderedSet(set):
+    """A set that is iterated in the order in which elements were added."""
+
+    def __init__(self, iterable=()):
+        super(OrderedSet, self).__init__()
+        self.order = []
+        self.update(iterable)
+
+    def add(self, element):
+        if element not in self:
+            super(OrderedSet, self).add(element)
+            self.order.append(element)
+
+    def update(self, iterable):
+        for element in iterable:
+            self.add(element)
+
+    def __iter__(self):
+        return iter([element for element in self.order if element in self])
+
+
 def empty_dict_from(structure):
     """
     Create a nested dict where all the leaves are Nodes from a given
@@ -83,7 +104,7 @@ def empty_dict_from(structure):
     if isinstance(structure, (dict, BufferView)):
         return {k: empty_dict_from(v) for k, v in structure.items()}
     else:
-        return Node(set(), set(), set())
+        return Node(OrderedSet(), OrderedSet(), OrderedSet())
 
 
 def add_or_update(s, v):
@@ -120,7 +141,7 @@ def apply_references_recursively(resolved, references, parent_default,
         layer_to_references = get_key_to_references_mapping(resolved,
                                                             references)
         for key, refs in layer_to_references.items():
-            for ref in refs:
+            for ref in [r for r in references if r in refs]:
                 apply_references_recursively(resolved[key], references[ref],
                                              current_default, current_fallback)
             if not refs:
@@ -138,9 +159,9 @@ def evaluate_defaults(structure):
         assert isinstance(structure, Node)
         if not structure.content:
             assert len(structure.defaults) <= 1
-            return set(structure.defaults)
+            return OrderedSet(structure.defaults)
         else:
-            return set(structure.content)
+            return OrderedSet(structure.content)
 
 
 def get_fallbacks(structure):
-- 
2.43.0


From 72eaa378c0e73f555f127a746e93fe6f811cf9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 22/45] fix: a quit signal that arrives during output does not
 abort the training

Printing from the signal handler while stdout is being written raises a
RuntimeError (reentrant call).
---
 brainstorm/hooks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 278f0a0..eb47fba 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -705,11 +705,12 @@ class StopOnSigQuit(Hook):
         signal.signal(signal.SIGQUIT, self.receive_signal)
 
     def receive_signal(self, signum, stack):
-        self.message('Interrupting')
+        # no output here, because stdout might be in use at this moment
         self.quit = True
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
         if self.quit:
+            self.message('Interrupting')
             raise StopIteration('Received SIGQUIT signal.')
 
 
-- 
2.43.0


From 9c030dc1b7d96d6315515cb9db8d2a9ac79799cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 23/45] fix: StopAfterThresholdReached stops at the first value
 that reaches it

A NaN in the log hid all other values, and it failed if the log had no entry
yet before the first epoch.
---
 brainstorm/hooks.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index eb47fba..0cb987f 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -598,12 +598,17 @@ class StopAfterThresholdReached(Hook):
         self.criterion = criterion
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
-        e = get_by_path(logs, self.log_name)
-        is_threshold_reached = False
-        if self.criterion == 'max' and max(e) >= self.threshold:
-            is_threshold_reached = True
-        elif self.criterion == 'min' and min(e) <= self.threshold:
-            is_threshold_reached = True
+        try:
+            e = get_by_path(logs, self.log_name)
+        except KeyError:
+            if epoch_nr == 0:
+                return
+            raise
+        # comparisons with NaN are always false
+        if self.criterion == 'max':
+            is_threshold_reached = any(v >= self.threshold for v in e)
+        else:
+            is_threshold_reached = any(v <= self.threshold for v in e)
         if is_threshold_reached:
             self.message("Stopping because {} has reached the threshold {} "
                          "(criterion used : {})".format(
-- 
2.43.0


From e5e0c817066780e40e5cf538dfd32cf9bee90aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 24/45] fix: EarlyStopper does not regard NaN as an improvement

---
 brainstorm/hooks.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 0cb987f..ef718d5 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -496,8 +496,12 @@ class EarlyStopper(Hook):
                 e = get_by_path(logs, self.log_name)
             except KeyError:
                 return
-        e = get_by_path(logs, self.log_name)
-        best_idx = np.argmin(e) if self.criterion == 'min' else np.argmax(e)
+        e = np.array(get_by_path(logs, self.log_name), dtype=float)
+        # NaN is not an improvement
+        if self.criterion == 'min':
+            best_idx = np.argmin(np.where(np.isnan(e), np.inf, e))
+        else:
+            best_idx = np.argmax(np.where(np.isnan(e), -np.inf, e))
         if len(e) > best_idx + self.patience:
             self.message("Stopping because {} did not improve for {} checks "
                          "(criterion used : {}).".format(self.log_name,
-- 
2.43.0


From 6b908c59850431cccd0e6d03c9c1f36c6ff1b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 25/45] fix: StopOnNan can check logs that are not there before
 the first epoch

---
 brainstorm/hooks.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index ef718d5..23770bd 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -658,7 +658,12 @@ class StopOnNan(Hook):
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
         for log_name in self.logs_to_check:
-            log = get_by_path(logs, log_name)
+            try:
+                log = get_by_path(logs, log_name)
+            except KeyError:
+                if epoch_nr == 0:
+                    continue
+                raise
             if not np.all(np.isfinite(log)):
                 self.message("NaN or inf detected in {}!".format(log_name))
                 raise StopIteration()
-- 
2.43.0


From c11757960bd80a904fec4b76691679838b7cfecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:02 +0000
Subject: [PATCH 26/45] fix: networks with the Uniform initializer can be
 loaded

---
 brainstorm/initializers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index 7001f56..f3898e3 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -382,9 +382,13 @@ class Uniform(Initializer):
         super(Uniform, self).__init__()
         self.low = low
         self.high = high
-        self.__init_from_description__(None)
+        self._set_interval()
 
     def __init_from_description__(self, description):
+        super(Uniform, self).__init_from_description__(description)
+        self._set_interval()
+
+    def _set_interval(self):
         if self.high is None:
             self.low, self.high = sorted([-self.low, self.low])
         assert self.low < self.high, \
-- 
2.43.0


From 01f34dce11940b0db017619efd25d8e801b94ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:16 +0000
Subject: [PATCH 27/45] fix: the seed for initializing also governs
 sub-initializers

---
 brainstorm/initializers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index f3898e3..6bf1263 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -334,7 +334,8 @@ class SparseInputs(Initializer):
             raise InitializationError("Input dimension to small: {} < {}"
                                       "".format(shape[0], self.connections))
 
-        sub_result = evaluate_initializer(self.sub_initializer, shape)
+        sub_result = evaluate_initializer(self.sub_initializer, shape,
+                                          seed=self.rnd.generate_seed())
         connection_mask = np.zeros(shape)
         connection_mask[:self.connections, :] = 1.
         for i in range(shape[1]):
@@ -363,7 +364,8 @@ class SparseOutputs(Initializer):
         if shape[1] < self.connections:
             raise InitializationError("Output dimension to small: {} < {}"
                                       "".format(shape[1], self.connections))
-        sub_result = evaluate_initializer(self.sub_initializer, shape)
+        sub_result = evaluate_initializer(self.sub_initializer, shape,
+                                          seed=self.rnd.generate_seed())
         connection_mask = np.zeros(shape)
         connection_mask[:, :self.connections] = 1.
         for i in range(shape[0]):
-- 
2.43.0


From 5fa209508dadcf203ad6d34b28ea47ee5edc8442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:55 +0000
Subject: [PATCH 28/45] fix: logs that contain text can be saved

---
 brainstorm/hooks.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 23770bd..f5c3cf7 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -6,8 +6,9 @@ import signal
 import sys
 from collections import OrderedDict
 
+import h5py
 import numpy as np
-from six import string_types
+from six import string_types, text_type
 
 from brainstorm.describable import Describable
 from brainstorm import optional
@@ -182,7 +183,10 @@ class SaveLogs(Hook):
                 subgroup = group.create_group(name)
                 SaveLogs._save_recursively(subgroup, log)
             else:
-                group.create_dataset(name, data=np.array(log))
+                data = np.array(log)
+                if data.dtype.kind == 'U':  # e.g. messages from stoppers
+                    data = data.astype(h5py.special_dtype(vlen=text_type))
+                group.create_dataset(name, data=data)
 
 
 class SaveNetwork(Hook):
-- 
2.43.0


From 7fcf8da4dcbc6c57d511a1db19363fdac6a3bb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:49 +0000
Subject: [PATCH 29/45] fix: gradients survive a pass with other data sizes

---
 brainstorm/structure/buffers.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/brainstorm/structure/buffers.py b/brainstorm/structure/buffers.py
index 4898927..048689c 100644
--- a/brainstorm/structure/buffers.py
+++ b/brainstorm/structure/buffers.py
@@ -81,11 +81,15 @@ class BufferManager(object):
                    for i in range(len(self.hubs))]
 
         if self.views is not None:
-            # copy the parameters
-            self.handler.set_from_numpy(
-                create_buffer_views_from_layout(
-                    self.layout['parameters'], buffers, self.hubs),
-                self.handler.get_numpy_copy(self.views.parameters))
+            # copy the parameters and gradients
+            kept = [(self.layout[name],
+                     self.handler.get_numpy_copy(self.views[name]))
+                    for name in ('parameters', 'gradients')
+                    if name in self.layout]
+            for layout, values in kept:
+                self.handler.set_from_numpy(
+                    create_buffer_views_from_layout(layout, buffers,
+                                                    self.hubs), values)
 
         # nothing can fail anymore, so the state stays consistent
         self.views = create_buffer_views_from_layout(
-- 
2.43.0


From fd00cadb38087439d38307d10741909431879206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:17 +0000
Subject: [PATCH 30/45] fix: layer monitors work before the first data is
 passed through the network

---
 brainstorm/hooks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index f5c3cf7..ca86b35 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -226,6 +226,8 @@ class MonitorLayerDeltas(Hook):
             "are {}.".format(self.__name__, self.layer_name, net.layers.keys())
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
+        if net._buffer_manager.time_size == 0:
+            return  # no data has passed through the network yet
         log = OrderedDict()
         for key, v in net.buffer[self.layer_name].internals.items():
             v = net.handler.get_numpy_copy(v)
@@ -299,6 +301,8 @@ class MonitorLayerInOuts(Hook):
             "are {}.".format(self.__name__, self.layer_name, net.layers.keys())
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
+        if net._buffer_manager.time_size == 0:
+            return  # no data has passed through the network yet
         log = OrderedDict()
         input_log = log['inputs'] = OrderedDict()
         for key, v in net.buffer[self.layer_name].inputs.items():
-- 
2.43.0


From fd3a5d48141c56ba5133af985e0b9538e57a0056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:13 +0000
Subject: [PATCH 31/45] fix: a failed transfer does not leave modifiers with
 undefined values

---
 brainstorm/value_modifiers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index 950f3b5..b1041d3 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -144,8 +144,9 @@ class MaskValues(ValueModifier):
     def __call__(self, handler, view):
         if (self.device_mask is None or
                 not isinstance(self.device_mask, handler.array_type)):
-            self.device_mask = handler.allocate(self.mask.shape)
-            handler.set_from_numpy(self.device_mask, self.mask)
+            device_mask = handler.allocate(self.mask.shape)
+            handler.set_from_numpy(device_mask, self.mask)
+            self.device_mask = device_mask
         handler.mult_tt(view, self.device_mask, view)
 
 
@@ -181,8 +182,9 @@ class FreezeValues(ValueModifier):
 
         if (self.device_weights is None or
                 not isinstance(self.device_weights, handler.array_type)):
-            self.device_weights = handler.allocate(self.weights.shape)
-            handler.set_from_numpy(self.device_weights, self.weights)
+            device_weights = handler.allocate(self.weights.shape)
+            handler.set_from_numpy(device_weights, self.weights)
+            self.device_weights = device_weights
 
         handler.copy_to(self.device_weights, view)
 
-- 
2.43.0


From 9d92fdc9f4cc2f04070ced0dfd89555913533d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:50 +0000
Subject: [PATCH 32/45] fix: RandomCrop works with parts of the data and any
 number type

---
 brainstorm/data_iterators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 6b0841d..78496c1 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -371,7 +371,9 @@ class RandomCrop(DataIterator):
                 row_indices = self.rnd.random_integers(0, max_r, n)
                 col_indices = self.rnd.random_integers(0, max_c, n)
                 cropped = np.zeros((t, n, crop_h, crop_w, c))
-                _crop_images(data[name], crop_h, crop_w, row_indices,
+                # the cropping needs contiguous images of the same type
+                images = np.ascontiguousarray(data[name], cropped.dtype)
+                _crop_images(images, crop_h, crop_w, row_indices,
                              col_indices, cropped)
                 data[name] = cropped
             yield data
-- 
2.43.0


From c25fe9099cb080e63ca9c0c6f134c39c882428f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:16 +0000
Subject: [PATCH 33/45] fix: the sigmoid of NaN is NaN instead of the previous
 content

---
 brainstorm/handlers/numpy_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index c481391..fcd5389 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -281,7 +281,7 @@ class NumpyHandler(Handler):
     def sigmoid(self, x, y):
         indices = x >= 0
         y[indices] = 1. / (1. + np.exp(-x[indices]))
-        indices = x < 0
+        indices = np.logical_not(indices)  # includes NaN
         y[indices] = np.exp(x[indices]) / (1. + np.exp(x[indices]))
 
     def sigmoid_deriv(self, x, y, dy, dx):
-- 
2.43.0


From 513df2ce26025f02330e75060774efc9cc60b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:57 +0000
Subject: [PATCH 34/45] fix: extracting features without targets does not use
 left over values as targets

---
 brainstorm/training/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/brainstorm/training/utils.py b/brainstorm/training/utils.py
index 0afb9ad..15dcf02 100644
--- a/brainstorm/training/utils.py
+++ b/brainstorm/training/utils.py
@@ -6,4 +6,9 @@ from __future__ import division, print_function, unicode_literals
 def run_network(net, iterator, all_inputs=True):
     for i, data in enumerate(iterator):
         net.provide_external_data(data, all_inputs=all_inputs)
+        if not all_inputs:
+            # what is left over in the buffers might not be valid as inputs
+            for name, buf in net.buffer.Input.outputs.items():
+                if name not in data:
+                    net.handler.fill(buf, 0.)
         yield i
-- 
2.43.0


From ec1ecf03fbd7a2db0aa06e724d9f072f1217471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:14 +0000
Subject: [PATCH 35/45] fix: ConstrainL2Norm works with the debug handler

---
 brainstorm/handlers/debug_handler.py |  3 ++-
 brainstorm/value_modifiers.py        | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/brainstorm/handlers/debug_handler.py b/brainstorm/handlers/debug_handler.py
index cbe7437..8f12de6 100644
--- a/brainstorm/handlers/debug_handler.py
+++ b/brainstorm/handlers/debug_handler.py
@@ -59,11 +59,12 @@ def check_for_inf_or_nan(f):
 # ############################# Debug Handler ############################### #
 
 class DebugHandler(Handler):
-    __undescribed__ = {'EMPTY', 'array_type'}
+    __undescribed__ = {'EMPTY', 'array_type', 'dtype'}
 
     def __init__(self, handler):
         super(DebugHandler, self).__init__()
         self.handler = handler
+        self.dtype = handler.dtype
         self.EMPTY = DebugArray(arr=handler.EMPTY)
         self.array_type = DebugArray
 
diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index b1041d3..29e2103 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -74,12 +74,14 @@ class ConstrainL2Norm(ValueModifier):
         mat = view.reshape((view.shape[0], view.size // view.shape[0]))
         sq_norm = handler.allocate((view.shape[0], 1))
         divisor = handler.allocate(sq_norm.shape)
+        squares = handler.allocate(mat.shape)
 
-        # FIXME: use handler operations for this
-        handler.sum_t(mat * mat, axis=1, out=sq_norm)
-        handler.mult_st(1 / self.limit, sq_norm ** 0.5, out=divisor)
+        handler.mult_tt(mat, mat, out=squares)
+        handler.sum_t(squares, axis=1, out=sq_norm)
+        handler.sqrt_t(sq_norm, out=divisor)
+        handler.mult_st(1 / self.limit, divisor, out=divisor)
         handler.clip_t(divisor, a_min=1.0,
-                       a_max=np.finfo(handler.dtype).max, out=divisor)
+                       a_max=float(np.finfo(handler.dtype).max), out=divisor)
         handler.divide_mv(mat, divisor, mat)
 
     def __repr__(self):
-- 
2.43.0


From 09bec56d21e8b5d3bb59ada6709a67fe4e0327a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:41 +0000
Subject: [PATCH 36/45] fix: masks and frozen weights follow the precision of a
 new handler

---
 brainstorm/value_modifiers.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index 29e2103..11e211c 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -131,24 +131,26 @@ class MaskValues(ValueModifier):
     which weights to affect.
     """
 
-    __undescribed__ = {'device_mask'}
+    __undescribed__ = {'device_mask', 'device_type'}
 
     def __init__(self, mask):
         super(MaskValues, self).__init__()
         assert isinstance(mask, np.ndarray)
         self.mask = mask
         self.device_mask = None
+        self.device_type = None
 
     def __init_from_description__(self, description):
         super(MaskValues, self).__init_from_description__(description)
         self.mask = np.array(self.mask)
 
     def __call__(self, handler, view):
-        if (self.device_mask is None or
-                not isinstance(self.device_mask, handler.array_type)):
+        device_type = (handler.array_type, handler.dtype)
+        if self.device_mask is None or self.device_type != device_type:
             device_mask = handler.allocate(self.mask.shape)
             handler.set_from_numpy(device_mask, self.mask)
             self.device_mask = device_mask
+            self.device_type = device_type
         handler.mult_tt(view, self.device_mask, view)
 
 
@@ -166,12 +168,13 @@ class FreezeValues(ValueModifier):
     weights to affect.
     """
 
-    __undescribed__ = {'device_weights'}
+    __undescribed__ = {'device_weights', 'device_type'}
 
     def __init__(self, weights=None):
         super(FreezeValues, self).__init__()
         self.weights = weights
         self.device_weights = None
+        self.device_type = None
 
     def __init_from_description__(self, description):
         super(FreezeValues, self).__init_from_description__(description)
@@ -182,11 +185,12 @@ class FreezeValues(ValueModifier):
         if self.weights is None:
             self.weights = handler.get_numpy_copy(view)
 
-        if (self.device_weights is None or
-                not isinstance(self.device_weights, handler.array_type)):
+        device_type = (handler.array_type, handler.dtype)
+        if self.device_weights is None or self.device_type != device_type:
             device_weights = handler.allocate(self.weights.shape)
             handler.set_from_numpy(device_weights, self.weights)
             self.device_weights = device_weights
+            self.device_type = device_type
 
         handler.copy_to(self.device_weights, view)
 
-- 
2.43.0


From 2fdf74a934b8d6753cad69ec6719850440d45b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:34 +0000
Subject: [PATCH 37/45] fix: hooks of both timescales run before the first
 update even if one stops

---
 brainstorm/training/trainer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/brainstorm/training/trainer.py b/brainstorm/training/trainer.py
index 8467346..eff0aac 100644
--- a/brainstorm/training/trainer.py
+++ b/brainstorm/training/trainer.py
@@ -80,10 +80,9 @@ class Trainer(Describable):
         self.stepper.start(net)
         named_data_iters['training_data_iter'] = training_data_iter
         self._start_hooks(net, named_data_iters)
-        if self._emit_hooks(net, 'update') or self._emit_hooks(net, 'epoch'):
-            return
+        should_stop = self._emit_hooks(net, 'update')
+        should_stop |= self._emit_hooks(net, 'epoch')
 
-        should_stop = False
         while not should_stop:
             self.current_epoch_nr += 1
             sys.stdout.flush()
-- 
2.43.0


From b63fb546fed1d8df845513b3a527b685fdeaae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 38/45] fix: the monitors' data iterator is not part of their
 description

---
 brainstorm/hooks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index ca86b35..1903429 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -362,6 +362,8 @@ class MonitorLoss(Hook):
     Monitor the losses computed by the network on a dataset using a given data
     iterator.
     """
+    __undescribed__ = {'iter': None}
+
     def __init__(self, iter_name, name=None, timescale='epoch', interval=1,
                  verbose=None):
         super(MonitorLoss, self).__init__(name, timescale, interval, verbose)
@@ -408,6 +410,8 @@ class MonitorScores(Hook):
         MonitorLoss: monitor the overall loss of the network.
 
     """
+    __undescribed__ = {'iter': None}
+
     def __init__(self, iter_name, scorers, name=None, timescale='epoch',
                  interval=1, verbose=None):
 
-- 
2.43.0


From df65462ba20dd261eaa901c176f086e607a9a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 39/45] fix: SaveBestNetwork's progress is not part of its
 description

---
 brainstorm/hooks.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 1903429..55bd074 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -109,7 +109,12 @@ class SaveBestNetwork(Hook):
             ...                                       filename='best_loss.h5',
         ...                                           criterion='min'))
     """
-    __undescribed__ = {'parameters': None}
+    __undescribed__ = {
+        'parameters': None,
+        'best_parameters': None,
+        'best_so_far': None,
+        'best_t': None
+    }
     __default_values__ = {'filename': None}
 
     def __init__(self, log_name, filename=None, criterion='max', name=None,
@@ -124,6 +129,9 @@ class SaveBestNetwork(Hook):
         self.best_t = None
         self.criterion = criterion
 
+    def __init_from_description__(self, description):
+        self.best_so_far = np.inf if self.criterion == 'min' else -np.inf
+
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
         if epoch_nr == 0:
             try:
-- 
2.43.0


From 782c3212a20bb3fe4fad5f0cc8648cba8eb2b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 40/45] fix: the state of the ProgressBar is not part of its
 description

---
 brainstorm/hooks.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 55bd074..f6613d9 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -855,6 +855,13 @@ else:
 
 class ProgressBar(Hook):
     """ Adds a progress bar to show the training progress. """
+    __undescribed__ = {
+        'length': None,
+        'bar': None,
+        'bar_epoch_nr': None,
+        'bar_position': 0
+    }
+
     def __init__(self):
         super(ProgressBar, self).__init__(None, 'update', 1)
         self.length = None
-- 
2.43.0


From 77283842cac7a08897ca953300270c0cf17fb57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:16 +0000
Subject: [PATCH 41/45] fix: a rejected initialize() leaves the network and its
 description alone

---
 brainstorm/structure/network.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index b8d8bf1..315d888 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -244,13 +244,14 @@ class Network(Seedable):
         >>> net.initialize({'default': bs.Gaussian()}, seed=1234)
         """
         init_refs = _update_references_with_dict(default_or_init_dict, kwargs)
-        self.initializers = get_description(init_refs)
+        description = get_description(init_refs)
         all_parameters = {k: v.parameters
                           for k, v in self.buffer.items()
                           if isinstance(v, BufferView) and 'parameters' in v}
         init_refs = _replace_lists_with_array_initializers(init_refs)
         initializers, fallback = resolve_references(all_parameters, init_refs)
         init_rnd = self.rnd.create_random_state(seed)
+        values = []
         for layer_name, views in sorted(all_parameters.items()):
             if views is None:
                 continue
@@ -271,10 +272,15 @@ class Network(Seedable):
                             layer_name, view_name, fb))
 
                 fb = fb.pop() if len(fb) else None
-                self.handler.set_from_numpy(
-                    view,
-                    evaluate_initializer(init.pop(), view.shape, fb,
-                                         seed=init_rnd.generate_seed()))
+                value = np.empty(view.shape)
+                value[:] = evaluate_initializer(init.pop(), view.shape, fb,
+                                                seed=init_rnd.generate_seed())
+                values.append((view, value))
+
+        # change the network only now, that everything was found to be valid
+        for view, value in values:
+            self.handler.set_from_numpy(view, value)
+        self.initializers = description
 
     def set_weight_modifiers(self, default_or_mod_dict=None, **kwargs):
         """
-- 
2.43.0


From 8061cb77ccfbb5a556133aebe65f7777191f01b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:32 +0000
Subject: [PATCH 42/45] fix: networks keep a copy of the architecture they were
 created from

---
 brainstorm/structure/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index 315d888..a0a5d00 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -4,6 +4,7 @@ from __future__ import division, print_function, unicode_literals
 
 import json
 from collections import OrderedDict
+from copy import deepcopy
 
 import h5py
 import numpy as np
@@ -62,6 +63,8 @@ class Network(Seedable):
             Network:
                 A fully functional Network instance.
         """
+        # the caller may go on to use (and change) his architecture
+        architecture = deepcopy(architecture)
         layers = instantiate_layers_from_architecture(architecture)
         hubs, layout = create_layout(layers)
         buffer_manager = BufferManager(layout, hubs)
-- 
2.43.0


From ba5e06c7d57ce94e0f4b7bd6d2fd9ce4dc2baf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:58 +0000
Subject: [PATCH 43/45] fix: features are extracted from batches of different
 length as well

---
 brainstorm/tools.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 1ca9c01..d1dee45 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -86,7 +86,8 @@ def extract(network, iter, buffer_names):
     """Apply the network to some data and return the requested buffers.
 
     Batches are returned as a dictionary, with one entry for each
-    requested buffer, with the data in (T, B, ...) order.
+    requested buffer, with the data in (T, B, ...) order. Where a batch is
+    shorter than the longest one, its entries are padded with zeros.
 
     Args:
         network (brainstorm.structure.Network):
@@ -116,8 +117,14 @@ def extract(network, iter, buffer_names):
             if first_pass:
                 data_shape = (data.shape[0], nr_examples) + data.shape[2:]
                 return_data[buffer_name] = np.zeros(data_shape, data.dtype)
-            return_data[buffer_name][:, nr_items - data.shape[1]:nr_items] = \
-                data
+            values = return_data[buffer_name]
+            if len(data) > len(values):
+                # (the sequences of the batches before were all shorter)
+                return_data[buffer_name] = np.zeros(
+                    data.shape[:1] + values.shape[1:], values.dtype)
+                return_data[buffer_name][:len(values)] = values
+                values = return_data[buffer_name]
+            values[:len(data), nr_items - data.shape[1]:nr_items] = data
     return return_data
 
 
@@ -169,11 +176,14 @@ def extract_and_save(network, iter, buffer_names, file_name):
                 if first_pass:
                     ds.append(f.create_dataset(
                         buffer_name, data.shape, data.dtype, chunks=data.shape,
-                        maxshape=(data.shape[0], None) + data.shape[2:]))
+                        maxshape=(None, None) + data.shape[2:]))
                     ds[-1][:] = data
                 else:
                     ds[num].resize(size=nr_items, axis=1)
-                    ds[num][:, nr_items - data.shape[1]:nr_items, ...] = data
+                    if len(data) > len(ds[num]):
+                        ds[num].resize(size=len(data), axis=0)
+                    ds[num][:len(data), nr_items - data.shape[1]:nr_items,
+                            ...] = data
 
 
 def get_in_out_layers(task_type, in_shape, out_shape, data_name='default',
-- 
2.43.0


From 3ea62199282df596c4efb628eb7d458c4a4c4bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:50 +0000
Subject: [PATCH 44/45] fix: the exponential linear activation is defined for
 large inputs

exp() of a large positive input overflows, and its product with zero is NaN,
although the result for such inputs is the input itself.
---
 brainstorm/handlers/numpy_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index fcd5389..0291f18 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -300,7 +300,7 @@ class NumpyHandler(Handler):
 
     def el(self, x, y):
         # TODO: Optimize this implementation
-        y[:] = x * (x >= 0.) + (np.exp(x) - 1.) * (x < 0.)
+        y[:] = x * (x >= 0.) + (np.exp(np.minimum(x, 0.)) - 1.) * (x < 0.)
 
     def el_deriv(self, x, y, dy, dx):
         # TODO: Optimize this implementation
-- 
2.43.0


From 4024ac072b739c9a69bd85f8f6ce105273e15376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:21 +0000
Subject: [PATCH 45/45] fix: iterators that change the shape of the data
 announce the new shape

---
 brainstorm/data_iterators.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 78496c1..efd0714 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -217,6 +217,11 @@ class OneHot(DataIterator):
             shape = iter.data_shapes[key]
             if not (shape[-1] == 1 and len(shape) == 3):
                 raise IteratorValidationError("Only 3D data is supported")
+        self.data_shapes = dict(iter.data_shapes)
+        for key, vocab_size in vocab_size_dict.items():
+            self.data_shapes[key] = tuple(iter.data_shapes[key][:2]) + (
+                vocab_size,)
+
         self.vocab_size_dict = vocab_size_dict
         self.iter = iter
 
@@ -262,6 +267,11 @@ class MultiHot(DataIterator):
             shape = iter.data_shapes[key]
             if not len(shape) == 3:
                 raise IteratorValidationError("Only 3D data is supported")
+        self.data_shapes = dict(iter.data_shapes)
+        for key, vocab_size in vocab_size_dict.items():
+            self.data_shapes[key] = tuple(iter.data_shapes[key][:2]) + (
+                vocab_size,)
+
         self.vocab_size_dict = vocab_size_dict
         self.iter = iter
 
@@ -307,6 +317,11 @@ class Pad(DataIterator):
                     "}".format(key, iter.data_shapes.keys()))
             if len(iter.data_shapes[key]) != 5:
                 raise IteratorValidationError("Only 5D data is supported")
+        self.data_shapes = dict(iter.data_shapes)
+        for key, size in size_dict.items():
+            t, b, h, w, c = iter.data_shapes[key]
+            self.data_shapes[key] = (t, b, h + 2 * size, w + 2 * size, c)
+
         self.value_dict = {} if value_dict is None else value_dict
         self.size_dict = size_dict
         self.iter = iter
@@ -357,6 +372,11 @@ class RandomCrop(DataIterator):
                 raise IteratorValidationError("Invalid crop height")
             if val[1] > data_shape[3] or val[1] < 0:
                 raise IteratorValidationError("Invalid crop width")
+        self.data_shapes = dict(iter.data_shapes)
+        for key, val in shape_dict.items():
+            t, b, h, w, c = iter.data_shapes[key]
+            self.data_shapes[key] = (t, b, val[0], val[1], c)
+
         self.shape_dict = shape_dict
         self.iter = iter
 
-- 
2.43.0


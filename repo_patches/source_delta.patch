From 6b12430c01f8f2a9f52e9e3bd6119426985e1b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:18 +0000
Subject: [PATCH 01/26] fix: ByteWriter.Write must reject offsets outside the
 buffer instead of panicking

---
 bytewriter/bytewriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytewriter/bytewriter.go b/bytewriter/bytewriter.go
index fc62416..cca00d9 100644
--- a/bytewriter/bytewriter.go
+++ b/bytewriter/bytewriter.go
@@ -34,7 +34,7 @@ func (w *ByteWriter) Bytes() []byte { return w.buffer }
 func (w *ByteWriter) Write(data []byte, offset int) (int, error) {
 	l := len(data)
 
-	if offset+l > w.Len() {
+	if offset < 0 || offset > w.Len()-l {
 		return -1, errors.Errorf("cannot write %v bytes at offset %v", l, offset)
 	}
 
-- 
2.43.0


From b69ca7ec68d9a56e5c7bc5172fbfd0fb6c8e7490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:18 +0000
Subject: [PATCH 02/26] fix: count the instance domain section of the TOC by
 domains, not by instances

A registry whose domains have no instances made Start panic with a negative
WaitGroup counter.
---
 client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 282efe3..2e07645 100644
--- a/client.go
+++ b/client.go
@@ -159,8 +159,12 @@ func (c *PCPClient) SetFlag(flag MMVFlag) error {
 func (c *PCPClient) tocCount() int {
 	ans := 2
 
+	if c.r.InstanceDomainCount() > 0 {
+		ans++
+	}
+
 	if c.r.InstanceCount() > 0 {
-		ans += 2
+		ans++
 	}
 
 	if c.r.StringCount() > 0 {
-- 
2.43.0


From fb3b6e5b64f5f6cdfc211725cf32a50dbbe99ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:35 +0000
Subject: [PATCH 03/26] fix: reject descriptions that do not fit their string
 slot

They were written past the end of the slot, over the next string.
---
 instance_domain.go | 4 ++++
 metrics.go         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/instance_domain.go b/instance_domain.go
index fe4b42d..a16f8ac 100644
--- a/instance_domain.go
+++ b/instance_domain.go
@@ -52,6 +52,10 @@ func NewPCPInstanceDomain(name string, instances []string, desc ...string) (*PCP
 		longDescription = desc[1]
 	}
 
+	if len(shortDescription) > StringLength || len(longDescription) > StringLength {
+		return nil, errors.New("Instance Domain description is too long")
+	}
+
 	imap := make(map[string]*pcpInstance)
 
 	for _, instance := range instances {
diff --git a/metrics.go b/metrics.go
index cb55701..cf2a64a 100644
--- a/metrics.go
+++ b/metrics.go
@@ -499,6 +499,10 @@ func newpcpMetricDesc(n string, t MetricType, s MetricSemantics, u MetricUnit, d
 		longdesc = desc[1]
 	}
 
+	if len(shortdesc) > StringLength || len(longdesc) > StringLength {
+		return nil, errors.New("metric description is too long")
+	}
+
 	return &pcpMetricDesc{
 		hash(n, PCPMetricItemBitLength),
 		n, t, s, u,
-- 
2.43.0


From fa63ae08c4a7efd27b120a6eb8a8abe73dda8d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:42 +0000
Subject: [PATCH 04/26] fix: reject string values that do not fit their string
 slot

They were written past the end of the slot, over the next string.
---
 metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics.go b/metrics.go
index cf2a64a..7b3e688 100644
--- a/metrics.go
+++ b/metrics.go
@@ -82,7 +82,7 @@ func (m MetricType) IsCompatible(val interface{}) bool {
 	case float64:
 		return m.isCompatibleFloat(v)
 	case string:
-		return m == StringType
+		return m == StringType && len(v) <= StringLength
 	}
 	return false
 }
-- 
2.43.0


From 174fd890e339101b8cdc63ff7026e0c0837e471d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:08 +0000
Subject: [PATCH 05/26] fix: composing a unit must store exactly the given
 dimension and scale

The dimension 1 that a unit constant carries was or-ed into the given
dimension (and into that of an earlier part of the same kind), so that for
example a squared unit was encoded as a cubed one.
---
 metrics.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metrics.go b/metrics.go
index 7b3e688..00af0c2 100644
--- a/metrics.go
+++ b/metrics.go
@@ -169,7 +169,8 @@ func (m *metricUnit) Space(s SpaceUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(s)
+	m.repr &^= 0xF<<28 | 0xF<<16
+	m.repr |= uint32(s) & (0xF << 16)
 	m.repr |= (uint32(dimension) & 0xF) << 28
 	return m
 }
@@ -180,7 +181,8 @@ func (m *metricUnit) Time(t TimeUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(t)
+	m.repr &^= 0xF<<24 | 0xF<<12
+	m.repr |= uint32(t) & (0xF << 12)
 	m.repr |= (uint32(dimension) & 0xF) << 24
 	return m
 }
@@ -191,7 +193,8 @@ func (m *metricUnit) Count(c CountUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(c)
+	m.repr &^= 0xF<<20 | 0xF<<8
+	m.repr |= uint32(c) & (0xF << 8)
 	m.repr |= (uint32(dimension) & 0xF) << 20
 	return m
 }
-- 
2.43.0


From 27a2468967c1e3b1866896f7d9f046c996a9d5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:14 +0000
Subject: [PATCH 06/26] fix: CountScale must return the scale of the unit

---
 metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics.go b/metrics.go
index 00af0c2..05866f4 100644
--- a/metrics.go
+++ b/metrics.go
@@ -241,7 +241,7 @@ func (m *metricUnit) CountScale() CountUnit {
 		panic("no count scale on unit")
 	}
 
-	return CountUnit(1<<20 | (uint32((m.repr>>8)&0xF))>>8)
+	return CountUnit(1<<20 | (uint32((m.repr>>8)&0xF))<<8)
 }
 
 func (m *metricUnit) String() string {
-- 
2.43.0


From 068854b008e69893bfab69d26682bff4f4165962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 07/26] fix: an increment that overflows must not make a
 counter go backwards

---
 metrics.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metrics.go b/metrics.go
index 05866f4..1f995c0 100644
--- a/metrics.go
+++ b/metrics.go
@@ -732,6 +732,10 @@ func (c *PCPCounter) Inc(val int64) error {
 	}
 
 	v := c.val.(int64)
+	if v > math.MaxInt64-val {
+		return errors.Errorf("cannot increment counter by %v, current value is %v and PCP counters cannot go backwards", val, v)
+	}
+
 	v += val
 	return c.set(v)
 }
@@ -1210,6 +1214,10 @@ func (c *PCPCounterVector) Inc(inc int64, instance string) error {
 		return err
 	}
 
+	if v.(int64) > math.MaxInt64-inc {
+		return errors.Errorf("cannot increment instance %s by %v, its value is %v and PCP counters cannot go backwards", instance, inc, v)
+	}
+
 	return c.setInstance(v.(int64)+inc, instance)
 }
 
-- 
2.43.0


From 68bbe57811940935654cee76e0a71a32d056045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:47 +0000
Subject: [PATCH 08/26] fix: histogram High and Low were swapped

---
 metrics.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics.go b/metrics.go
index 1f995c0..13545f3 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1460,10 +1460,10 @@ func NewPCPHistogram(name string, low, high int64, sigfigures int, unit MetricUn
 }
 
 // High returns the maximum recordable value.
-func (h *PCPHistogram) High() int64 { return h.h.LowestTrackableValue() }
+func (h *PCPHistogram) High() int64 { return h.h.HighestTrackableValue() }
 
 // Low returns the minimum recordable value.
-func (h *PCPHistogram) Low() int64 { return h.h.HighestTrackableValue() }
+func (h *PCPHistogram) Low() int64 { return h.h.LowestTrackableValue() }
 
 // Max returns the maximum recorded value so far.
 func (h *PCPHistogram) Max() int64 {
-- 
2.43.0


From 65712778f8db28075375deae04933c357988d0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:53 +0000
Subject: [PATCH 09/26] fix: read histogram percentiles and buckets under its
 lock

---
 metrics.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metrics.go b/metrics.go
index 13545f3..34beb80 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1574,7 +1574,11 @@ func (h *PCPHistogram) Variance() float64 {
 }
 
 // Percentile returns the value at the passed percentile.
-func (h *PCPHistogram) Percentile(p float64) int64 { return h.h.ValueAtQuantile(p) }
+func (h *PCPHistogram) Percentile(p float64) int64 {
+	h.mutex.RLock()
+	defer h.mutex.RUnlock()
+	return h.h.ValueAtQuantile(p)
+}
 
 // HistogramBucket is a single histogram bucket within a fixed range.
 type HistogramBucket struct {
@@ -1583,6 +1587,9 @@ type HistogramBucket struct {
 
 // Buckets returns a list of histogram buckets.
 func (h *PCPHistogram) Buckets() []*HistogramBucket {
+	h.mutex.RLock()
+	defer h.mutex.RUnlock()
+
 	b := h.h.Distribution()
 	buckets := make([]*HistogramBucket, len(b))
 	for i := 0; i < len(b); i++ {
-- 
2.43.0


From 0a3a2e1a075c6992b25d56bff972799a905989de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:18 +0000
Subject: [PATCH 10/26] fix: write the tag of an MMV file after its generations

Between writing the tag and the first generation both generations are 0 and
so equal, and a reader takes the unfinished file for a valid one.
---
 client.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 2e07645..e56d487 100644
--- a/client.go
+++ b/client.go
@@ -278,9 +278,6 @@ func (c *PCPClient) start() {
 }
 
 func (c *PCPClient) writeHeaderBlock(genc chan int64, g2offc chan int) {
-	// tag
-	c.writer.MustWriteString("MMV", 0)
-
 	var pos int
 
 	// version
@@ -309,6 +306,12 @@ func (c *PCPClient) writeHeaderBlock(genc chan int64, g2offc chan int) {
 	// cluster identifier
 	_ = c.writer.MustWriteUint32(c.clusterID, pos)
 
+	// tag
+	//
+	// NOTE: this has to be written after the generations, as the file looks
+	// like a complete one if it has a tag and both generations are still 0
+	c.writer.MustWriteString("MMV", 0)
+
 	// NOTE: the order here is important, should be same as in start()
 	// or deadlock
 	genc <- gen
-- 
2.43.0


From e2335e638783403793160bcaf3291b27fb4635af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:41 +0000
Subject: [PATCH 11/26] fix: a metric must not write to the mapping of a
 stopped client

Setting a metric after Stop wrote to memory that was no longer mapped, which
crashes the process, and setting one while a client starts or stops was a
data race. The lock of a metric now covers its link to the mapping, and Stop
cuts that link.
---
 client.go  | 15 ++++++++++++--
 metrics.go | 58 +++++++++++++++++++++++++++++++++++-------------------
 2 files changed, 51 insertions(+), 22 deletions(-)

diff --git a/client.go b/client.go
index e56d487..b089142 100644
--- a/client.go
+++ b/client.go
@@ -521,7 +521,9 @@ func (c *PCPClient) writeSingletonMetric(m *pcpSingletonMetric) {
 	c.valueoffsetc <- off + ValueLength
 
 	go func(offset int) {
-		m.update = c.writeValue(m.t, m.val, offset)
+		m.mutex.Lock()
+		m.update, m.writer = c.writeValue(m.t, m.val, offset), c.writer
+		m.mutex.Unlock()
 		wg.Done()
 	}(off)
 
@@ -547,7 +549,9 @@ func (c *PCPClient) writeInstanceMetric(m *pcpInstanceMetric) {
 		c.valueoffsetc <- off + ValueLength
 
 		go func(i *instanceValue, offset int) {
-			i.update = c.writeValue(m.t, i.val, offset)
+			m.mutex.Lock()
+			i.update, i.writer = c.writeValue(m.t, i.val, offset), c.writer
+			m.mutex.Unlock()
 			wg.Done()
 		}(m.vals[name], off)
 
@@ -653,6 +657,13 @@ func (c *PCPClient) Stop() error {
 }
 
 func (c *PCPClient) stop() {
+	// the metrics must not write to the mapping any more once it is gone
+	for _, m := range c.r.metrics {
+		if d, ok := m.(interface{ detach(bytewriter.Writer) }); ok {
+			d.detach(c.writer)
+		}
+	}
+
 	c.instanceoffsetc, c.indomoffsetc = nil, nil
 	c.metricoffsetc, c.valueoffsetc = nil, nil
 	c.stringoffsetc = nil
diff --git a/metrics.go b/metrics.go
index 34beb80..4ef6f76 100644
--- a/metrics.go
+++ b/metrics.go
@@ -563,8 +563,10 @@ func newupdateClosure(offset int, writer bytewriter.Writer) updateClosure {
 // pcpSingletonMetric defines an embeddable base singleton metric.
 type pcpSingletonMetric struct {
 	*pcpMetricDesc
+	mutex  sync.RWMutex // guards everything below
 	val    interface{}
 	update updateClosure
+	writer bytewriter.Writer // what update writes to
 }
 
 // newpcpSingletonMetric creates a new instance of pcpSingletonMetric.
@@ -574,7 +576,7 @@ func newpcpSingletonMetric(val interface{}, desc *pcpMetricDesc) (*pcpSingletonM
 	}
 
 	val = desc.t.resolve(val)
-	return &pcpSingletonMetric{desc, val, nil}, nil
+	return &pcpSingletonMetric{pcpMetricDesc: desc, val: val}, nil
 }
 
 // set Sets the current value of pcpSingletonMetric.
@@ -598,6 +600,16 @@ func (m *pcpSingletonMetric) set(val interface{}) error {
 	return nil
 }
 
+// detach makes sure that the metric never writes to the passed writer again.
+func (m *pcpSingletonMetric) detach(writer bytewriter.Writer) {
+	m.mutex.Lock()
+	defer m.mutex.Unlock()
+
+	if m.writer == writer {
+		m.update, m.writer = nil, nil
+	}
+}
+
 func (m *pcpSingletonMetric) Indom() *PCPInstanceDomain { return nil }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -606,7 +618,6 @@ func (m *pcpSingletonMetric) Indom() *PCPInstanceDomain { return nil }
 // only a value and a valueoffset.
 type PCPSingletonMetric struct {
 	*pcpSingletonMetric
-	mutex sync.RWMutex
 }
 
 // NewPCPSingletonMetric creates a new instance of PCPSingletonMetric
@@ -623,7 +634,7 @@ func NewPCPSingletonMetric(val interface{}, name string, t MetricType, s MetricS
 		return nil, err
 	}
 
-	return &PCPSingletonMetric{sm, sync.RWMutex{}}, nil
+	return &PCPSingletonMetric{sm}, nil
 }
 
 // Val returns the current Set value of PCPSingletonMetric.
@@ -673,7 +684,6 @@ type Counter interface {
 // PCPCounter implements a PCP compatible Counter Metric.
 type PCPCounter struct {
 	*pcpSingletonMetric
-	mutex sync.RWMutex
 }
 
 // NewPCPCounter creates a new PCPCounter instance.
@@ -693,7 +703,7 @@ func NewPCPCounter(val int64, name string, desc ...string) (*PCPCounter, error)
 		return nil, err
 	}
 
-	return &PCPCounter{sm, sync.RWMutex{}}, nil
+	return &PCPCounter{sm}, nil
 }
 
 // Val returns the current value of the counter.
@@ -774,7 +784,6 @@ type Gauge interface {
 // PCPGauge defines a PCP compatible Gauge metric
 type PCPGauge struct {
 	*pcpSingletonMetric
-	mutex sync.RWMutex
 }
 
 // NewPCPGauge creates a new PCPGauge instance.
@@ -794,7 +803,7 @@ func NewPCPGauge(val float64, name string, desc ...string) (*PCPGauge, error) {
 		return nil, err
 	}
 
-	return &PCPGauge{sm, sync.RWMutex{}}, nil
+	return &PCPGauge{sm}, nil
 }
 
 // Val returns the current value of the Gauge.
@@ -869,7 +878,6 @@ type Timer interface {
 // It also functionally implements a metric with elapsed type from PCP
 type PCPTimer struct {
 	*pcpSingletonMetric
-	mutex   sync.Mutex
 	started bool
 	since   time.Time
 }
@@ -889,7 +897,7 @@ func NewPCPTimer(name string, unit TimeUnit, desc ...string) (*PCPTimer, error)
 		return nil, err
 	}
 
-	return &PCPTimer{sm, sync.Mutex{}, false, time.Time{}}, nil
+	return &PCPTimer{sm, false, time.Time{}}, nil
 }
 
 // Reset resets the timer to 0
@@ -961,10 +969,11 @@ func (t *PCPTimer) Stop() (float64, error) {
 type instanceValue struct {
 	val    interface{}
 	update updateClosure
+	writer bytewriter.Writer // what update writes to
 }
 
 func newinstanceValue(val interface{}) *instanceValue {
-	return &instanceValue{val, nil}
+	return &instanceValue{val, nil, nil}
 }
 
 // pcpInstanceMetric represents a PCPMetric that can have multiple values
@@ -972,6 +981,7 @@ func newinstanceValue(val interface{}) *instanceValue {
 type pcpInstanceMetric struct {
 	*pcpMetricDesc
 	indom *PCPInstanceDomain
+	mutex sync.RWMutex // guards the contents of vals
 	vals  map[string]*instanceValue
 }
 
@@ -997,7 +1007,7 @@ func newpcpInstanceMetric(vals Instances, indom *PCPInstanceDomain, desc *pcpMet
 		mvals[name] = newinstanceValue(val)
 	}
 
-	return &pcpInstanceMetric{desc, indom, mvals}, nil
+	return &pcpInstanceMetric{pcpMetricDesc: desc, indom: indom, vals: mvals}, nil
 }
 
 func (m *pcpInstanceMetric) valInstance(instance string) (interface{}, error) {
@@ -1034,6 +1044,18 @@ func (m *pcpInstanceMetric) setInstance(val interface{}, instance string) error
 	return nil
 }
 
+// detach makes sure that the metric never writes to the passed writer again.
+func (m *pcpInstanceMetric) detach(writer bytewriter.Writer) {
+	m.mutex.Lock()
+	defer m.mutex.Unlock()
+
+	for _, v := range m.vals {
+		if v.writer == writer {
+			v.update, v.writer = nil, nil
+		}
+	}
+}
+
 // Indom returns the instance domain for the metric.
 func (m *pcpInstanceMetric) Indom() *PCPInstanceDomain { return m.indom }
 
@@ -1047,7 +1069,6 @@ func (m *pcpInstanceMetric) Instances() []string { return m.indom.Instances() }
 // over multiple instances in an instance domain.
 type PCPInstanceMetric struct {
 	*pcpInstanceMetric
-	mutex sync.RWMutex
 }
 
 // NewPCPInstanceMetric creates a new instance of PCPSingletonMetric.
@@ -1064,7 +1085,7 @@ func NewPCPInstanceMetric(vals Instances, name string, indom *PCPInstanceDomain,
 		return nil, err
 	}
 
-	return &PCPInstanceMetric{im, sync.RWMutex{}}, nil
+	return &PCPInstanceMetric{im}, nil
 }
 
 // ValInstance returns the value for a particular instance of the metric.
@@ -1130,7 +1151,6 @@ func generateInstanceMetric(vals map[string]interface{}, name string, instances
 // PCPCounterVector implements a CounterVector
 type PCPCounterVector struct {
 	*pcpInstanceMetric
-	mutex sync.RWMutex
 }
 
 // NewPCPCounterVector creates a new instance of a PCPCounterVector.
@@ -1149,7 +1169,7 @@ func NewPCPCounterVector(values map[string]int64, name string, desc ...string) (
 		return nil, err
 	}
 
-	return &PCPCounterVector{im, sync.RWMutex{}}, nil
+	return &PCPCounterVector{im}, nil
 }
 
 // Val returns the value of a particular instance of PCPCounterVector.
@@ -1267,7 +1287,6 @@ type GaugeVector interface {
 // PCPGaugeVector implements a GaugeVector
 type PCPGaugeVector struct {
 	*pcpInstanceMetric
-	mutex sync.RWMutex
 }
 
 // NewPCPGaugeVector creates a new instance of a PCPGaugeVector.
@@ -1285,7 +1304,7 @@ func NewPCPGaugeVector(values map[string]float64, name string, desc ...string) (
 		return nil, err
 	}
 
-	return &PCPGaugeVector{im, sync.RWMutex{}}, nil
+	return &PCPGaugeVector{im}, nil
 }
 
 // Val returns the value of a particular instance of PCPGaugeVector
@@ -1386,8 +1405,7 @@ type Histogram interface {
 // https://github.com/HdrHistogram/hdrhistogram-go
 type PCPHistogram struct {
 	*pcpInstanceMetric
-	mutex sync.RWMutex
-	h     *histogram.Histogram
+	h *histogram.Histogram
 }
 
 // the maximum and minimum values that can be recorded by a histogram
@@ -1456,7 +1474,7 @@ func NewPCPHistogram(name string, low, high int64, sigfigures int, unit MetricUn
 		return nil, err
 	}
 
-	return &PCPHistogram{m, sync.RWMutex{}, h}, nil
+	return &PCPHistogram{m, h}, nil
 }
 
 // High returns the maximum recordable value.
-- 
2.43.0


From d7c34f98e55866456ac509597637001c12e2822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:47 +0000
Subject: [PATCH 12/26] fix: read the value of a singleton metric under its
 lock when printing it

---
 metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics.go b/metrics.go
index 4ef6f76..70fbe99 100644
--- a/metrics.go
+++ b/metrics.go
@@ -661,7 +661,7 @@ func (m *PCPSingletonMetric) MustSet(val interface{}) {
 }
 
 func (m *PCPSingletonMetric) String() string {
-	return fmt.Sprintf("Val: %v\n%v", m.val, m.Description())
+	return fmt.Sprintf("Val: %v\n%v", m.Val(), m.Description())
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 8864b5738698a89c6bc01b1adad93fe418702bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:53 +0000
Subject: [PATCH 13/26] fix: Start must refuse a client that is already started

It leaked the previous mapping and file descriptor.
---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index b089142..d5e487c 100644
--- a/client.go
+++ b/client.go
@@ -200,6 +200,10 @@ func (c *PCPClient) Start() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
+	if c.writer != nil {
+		return errors.New("trying to start an already started client")
+	}
+
 	l := c.Length()
 
 	writer, err := bytewriter.NewMemoryMappedWriter(c.loc, l)
-- 
2.43.0


From cbdc2e1f5bf5d29bd17a9dbd83e17c3d2d48accb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:07 +0000
Subject: [PATCH 14/26] fix: make registrations atomic

Whether a name is taken and whether a mapping is active was checked before
the lock was acquired, so that concurrent registrations of one name could
all succeed (counting values and strings twice), and a registration could
slip in while a client was starting, changing the counts the layout of the
file is computed from. The string count and the version were changed under
two different locks, and read under none.
---
 client.go   | 13 +++++----
 registry.go | 82 ++++++++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 73 insertions(+), 22 deletions(-)

diff --git a/client.go b/client.go
index d5e487c..610e938 100644
--- a/client.go
+++ b/client.go
@@ -148,7 +148,7 @@ func (c *PCPClient) SetFlag(flag MMVFlag) error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if c.r.mapped {
+	if c.r.isMapped() {
 		return errors.New("cannot set mmv flag for an active client")
 	}
 
@@ -181,7 +181,7 @@ func (c *PCPClient) Length() int {
 		MetricLength   = Metric1Length
 	)
 
-	if c.r.version2 {
+	if c.r.isVersion2() {
 		InstanceLength = Instance2Length
 		MetricLength = Metric2Length
 	}
@@ -204,16 +204,19 @@ func (c *PCPClient) Start() error {
 		return errors.New("trying to start an already started client")
 	}
 
+	// the registry must not change from here on
+	mapped := c.r.setMapped(true)
+
 	l := c.Length()
 
 	writer, err := bytewriter.NewMemoryMappedWriter(c.loc, l)
 	if err != nil {
+		c.r.setMapped(mapped)
 		return errors.Wrap(err, "cannot create MemoryMappedBuffer in client")
 	}
 
 	c.writer = writer
 	c.start()
-	c.r.mapped = true
 	return nil
 }
 
@@ -643,13 +646,13 @@ func (c *PCPClient) Stop() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if !c.r.mapped {
+	if c.writer == nil {
 		return errors.New("trying to stop an already stopped mapping")
 	}
 
 	c.stop()
 
-	c.r.mapped = false
+	c.r.setMapped(false)
 
 	err := c.writer.(*bytewriter.MemoryMappedWriter).Unmap(EraseFileOnStop)
 	c.writer = nil
diff --git a/registry.go b/registry.go
index 1d66249..5555b00 100644
--- a/registry.go
+++ b/registry.go
@@ -50,6 +50,9 @@ type PCPRegistry struct {
 	metrics         map[string]PCPMetric          // a cache for metrics
 
 	// locks
+	//
+	// everything below is changed with both of them held, metricslock being
+	// acquired first, and can be read with either of them
 	indomlock   sync.RWMutex
 	metricslock sync.RWMutex
 
@@ -102,17 +105,52 @@ func (r *PCPRegistry) MetricCount() int {
 }
 
 // ValuesCount returns the number of values in the registry
-func (r *PCPRegistry) ValuesCount() int { return r.valueCount }
+func (r *PCPRegistry) ValuesCount() int {
+	r.metricslock.RLock()
+	defer r.metricslock.RUnlock()
+
+	return r.valueCount
+}
 
 // StringCount returns the number of strings in the registry
 func (r *PCPRegistry) StringCount() int {
+	r.metricslock.RLock()
+	defer r.metricslock.RUnlock()
+
 	if r.version2 {
-		return r.stringcount + r.MetricCount() + r.InstanceCount()
+		return r.stringcount + len(r.metrics) + r.instanceCount
 	}
 
 	return r.stringcount
 }
 
+// setMapped records whether a mapping of the registry is active, and returns
+// whether there was one before
+func (r *PCPRegistry) setMapped(mapped bool) bool {
+	r.metricslock.Lock()
+	defer r.metricslock.Unlock()
+	r.indomlock.Lock()
+	defer r.indomlock.Unlock()
+
+	old := r.mapped
+	r.mapped = mapped
+	return old
+}
+
+func (r *PCPRegistry) isMapped() bool {
+	r.metricslock.RLock()
+	defer r.metricslock.RUnlock()
+
+	return r.mapped
+}
+
+func (r *PCPRegistry) isVersion2() bool {
+	r.metricslock.RLock()
+	defer r.metricslock.RUnlock()
+
+	return r.version2
+}
+
 // HasInstanceDomain returns true if the registry already has an indom of the specified name
 func (r *PCPRegistry) HasInstanceDomain(name string) bool {
 	r.indomlock.RLock()
@@ -133,10 +171,8 @@ func (r *PCPRegistry) HasMetric(name string) bool {
 
 // AddInstanceDomain will add a new instance domain to the current registry
 func (r *PCPRegistry) AddInstanceDomain(indom InstanceDomain) error {
-	if r.HasInstanceDomain(indom.Name()) {
-		return errors.New("InstanceDomain is already defined for the current registry")
-	}
-
+	r.metricslock.Lock()
+	defer r.metricslock.Unlock()
 	r.indomlock.Lock()
 	defer r.indomlock.Unlock()
 
@@ -144,7 +180,15 @@ func (r *PCPRegistry) AddInstanceDomain(indom InstanceDomain) error {
 		return errors.New("Cannot add an indom when a mapping is active")
 	}
 
-	r.instanceDomains[indom.Name()] = indom.(*PCPInstanceDomain)
+	return r.addInstanceDomain(indom.(*PCPInstanceDomain))
+}
+
+func (r *PCPRegistry) addInstanceDomain(indom *PCPInstanceDomain) error {
+	if _, present := r.instanceDomains[indom.Name()]; present {
+		return errors.New("InstanceDomain is already defined for the current registry")
+	}
+
+	r.instanceDomains[indom.Name()] = indom
 	r.instanceCount += indom.InstanceCount()
 
 	if !r.version2 {
@@ -155,11 +199,11 @@ func (r *PCPRegistry) AddInstanceDomain(indom InstanceDomain) error {
 		}
 	}
 
-	if indom.(*PCPInstanceDomain).shortDescription != "" {
+	if indom.shortDescription != "" {
 		r.stringcount++
 	}
 
-	if indom.(*PCPInstanceDomain).longDescription != "" {
+	if indom.longDescription != "" {
 		r.stringcount++
 	}
 
@@ -194,27 +238,31 @@ func (r *PCPRegistry) addMetric(m PCPMetric) {
 
 // AddMetric will add a new metric to the current registry
 func (r *PCPRegistry) AddMetric(m Metric) error {
+	r.metricslock.Lock()
+	defer r.metricslock.Unlock()
+	r.indomlock.Lock()
+	defer r.indomlock.Unlock()
+
 	if r.mapped {
 		return errors.New("cannot add a metric when a mapping is active")
 	}
 
-	if r.HasMetric(m.Name()) {
+	if _, present := r.metrics[m.Name()]; present {
 		return errors.New("metric is already defined for the current registry")
 	}
 
 	pcpm := m.(PCPMetric)
 
 	// if it is an indom metric
-	if pcpm.Indom() != nil && !r.HasInstanceDomain(pcpm.Indom().Name()) {
-		err := r.AddInstanceDomain(pcpm.Indom())
-		if err != nil {
-			return err
+	if indom := pcpm.Indom(); indom != nil {
+		if _, present := r.instanceDomains[indom.Name()]; !present {
+			err := r.addInstanceDomain(indom)
+			if err != nil {
+				return err
+			}
 		}
 	}
 
-	r.metricslock.Lock()
-	defer r.metricslock.Unlock()
-
 	r.addMetric(pcpm)
 	return nil
 }
-- 
2.43.0


From 8c7914a7cede3871de18b7ac87f0e757f767a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:13 +0000
Subject: [PATCH 15/26] fix: values must refer to the instances of the
 registered domain

A metric whose instance domain has the name of a registered one, but is
another object, was accepted whatever its instances, and its values referred
to no instance at all.
---
 client.go   | 4 +++-
 registry.go | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 610e938..c3116a6 100644
--- a/client.go
+++ b/client.go
@@ -551,7 +551,9 @@ func (c *PCPClient) writeInstanceMetric(m *pcpInstanceMetric) {
 		wg.Done()
 	}()
 
-	for name, i := range m.indom.instances {
+	// the metric may have been created with an instance domain object other
+	// than the one that is registered, and only that one is in the file
+	for name, i := range c.r.instanceDomains[m.indom.name].instances {
 		off := <-c.valueoffsetc
 		c.valueoffsetc <- off + ValueLength
 
diff --git a/registry.go b/registry.go
index 5555b00..f1dc5c7 100644
--- a/registry.go
+++ b/registry.go
@@ -255,11 +255,14 @@ func (r *PCPRegistry) AddMetric(m Metric) error {
 
 	// if it is an indom metric
 	if indom := pcpm.Indom(); indom != nil {
-		if _, present := r.instanceDomains[indom.Name()]; !present {
+		registered, present := r.instanceDomains[indom.Name()]
+		if !present {
 			err := r.addInstanceDomain(indom)
 			if err != nil {
 				return err
 			}
+		} else if registered != indom && !registered.MatchInstances(indom.Instances()) {
+			return errors.Errorf("a different instance domain under the name %v already exists in the registry", indom.Name())
 		}
 	}
 
-- 
2.43.0


From 2705a0936ab515b45b81383763e5f086749de28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:33 +0000
Subject: [PATCH 16/26] fix: a refused metric string must not leave its
 instance domain behind

---
 registry.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/registry.go b/registry.go
index f1dc5c7..0cb5ce1 100644
--- a/registry.go
+++ b/registry.go
@@ -340,23 +340,23 @@ func (r *PCPRegistry) addInstanceMetricByString(name string, val interface{}, in
 		return nil, errors.New("to define an instance metric, a Instances type is required")
 	}
 
-	var (
-		id  InstanceDomain
-		err error
-	)
+	r.indomlock.RLock()
+	id, present := r.instanceDomains[indom]
+	r.indomlock.RUnlock()
+
+	if !present {
+		var err error
 
-	if !r.HasInstanceDomain(indom) {
-		id, err = r.AddInstanceDomainByName(indom, instances)
+		// it is added to the registry along with the metric, if that is valid
+		id, err = NewPCPInstanceDomain(indom, instances)
 		if err != nil {
 			return nil, err
 		}
-	} else if r.instanceDomains[indom].MatchInstances(instances) {
-		id = r.instanceDomains[indom]
-	} else {
+	} else if !id.MatchInstances(instances) {
 		return nil, errors.Errorf("a different instance domain under the name %v already exists in the registry", indom)
 	}
 
-	m, err := NewPCPInstanceMetric(mp, name, id.(*PCPInstanceDomain), t, s, u)
+	m, err := NewPCPInstanceMetric(mp, name, id, t, s, u)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 0a4e76ef757780f7f19312d93c581b8034ef3164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:38 +0000
Subject: [PATCH 17/26] fix: MatchInstances must not match repeated instances

---
 instance_domain.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instance_domain.go b/instance_domain.go
index a16f8ac..37d7fb7 100644
--- a/instance_domain.go
+++ b/instance_domain.go
@@ -109,10 +109,13 @@ func (indom *PCPInstanceDomain) MatchInstances(ins []string) bool {
 		return false
 	}
 
+	matched := make(map[string]bool)
+
 	for _, i := range ins {
-		if _, ok := indom.instances[i]; !ok {
+		if _, ok := indom.instances[i]; !ok || matched[i] {
 			return false
 		}
+		matched[i] = true
 	}
 
 	return true
-- 
2.43.0


From 0d49160d1012188eb74f6d6daff964e9ef691928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:56 +0000
Subject: [PATCH 18/26] fix: clients starting at the same time must not mix up
 instance offsets

All histograms share one instance domain, which holds the offsets of its
instances, so the values published by one client could refer to offsets in
the file of another.
---
 client.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/client.go b/client.go
index c3116a6..4c6591f 100644
--- a/client.go
+++ b/client.go
@@ -99,6 +99,11 @@ const (
 
 //go:generate stringer -type=MMVFlag
 
+// startlock makes clients write their files one at a time, as an instance
+// domain shared by several of them, like that of all histograms, holds the
+// offsets of its instances in the file that is being written
+var startlock sync.Mutex
+
 // PCPClient implements a client that can generate instrumentation for PCP
 type PCPClient struct {
 	mutex sync.Mutex
@@ -216,6 +221,10 @@ func (c *PCPClient) Start() error {
 	}
 
 	c.writer = writer
+
+	startlock.Lock()
+	defer startlock.Unlock()
+
 	c.start()
 	return nil
 }
-- 
2.43.0


From 7692b015f57d4d0f696c38ab94d22d6449ca3498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:02 +0000
Subject: [PATCH 19/26] fix: refuse client names that name a directory instead
 of a file

Starting such a client removed the directory, if it was empty, and put a
file of its own in its place.
---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index 4c6591f..d4bd278 100644
--- a/client.go
+++ b/client.go
@@ -72,6 +72,10 @@ func mmvFileLocation(name string) (string, error) {
 		return "", errors.New("name cannot have path separator")
 	}
 
+	if name == "" || name == "." || name == ".." {
+		return "", errors.Errorf("name cannot be %q, as it is not the name of a file", name)
+	}
+
 	tdir, present := config["PCP_TMP_DIR"]
 	var loc string
 	if present {
-- 
2.43.0


From d8ef54c0550b63f06ab540060a97756a1b3585c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:26 +0000
Subject: [PATCH 20/26] fix: a mapped writer must clean up when creating or
 unmapping it fails

The descriptor, and on creation the file, were left behind.
---
 bytewriter/memorymappedwriter.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/bytewriter/memorymappedwriter.go b/bytewriter/memorymappedwriter.go
index 4d6821f..0f8a1aa 100644
--- a/bytewriter/memorymappedwriter.go
+++ b/bytewriter/memorymappedwriter.go
@@ -38,15 +38,19 @@ func NewMemoryMappedWriter(loc string, size int) (*MemoryMappedWriter, error) {
 	}
 
 	l, err := f.Write(make([]byte, size))
-	if err != nil {
-		return nil, err
+	if err == nil && l < size {
+		err = errors.Errorf("Could not initialize %d bytes", size)
 	}
-	if l < size {
-		return nil, errors.Errorf("Could not initialize %d bytes", size)
+
+	var b mmap.MMap
+	if err == nil {
+		b, err = mmap.Map(f, mmap.RDWR, 0)
 	}
 
-	b, err := mmap.Map(f, mmap.RDWR, 0)
 	if err != nil {
+		// do not leave an open descriptor or an unusable file behind
+		_ = f.Close()
+		_ = os.Remove(loc)
 		return nil, err
 	}
 
@@ -61,19 +65,18 @@ func NewMemoryMappedWriter(loc string, size int) (*MemoryMappedWriter, error) {
 // Unmap will manually delete the memory mapping of a mapped buffer
 func (b *MemoryMappedWriter) Unmap(removefile bool) error {
 	m := mmap.MMap(b.buffer)
-	if err := m.Unmap(); err != nil {
-		return err
-	}
+	err := m.Unmap()
 
-	if err := b.handle.Close(); err != nil {
-		return err
+	// whatever fails, the rest still has to be cleaned up
+	if cerr := b.handle.Close(); err == nil {
+		err = cerr
 	}
 
 	if removefile {
-		if err := os.Remove(b.loc); err != nil {
-			return err
+		if rerr := os.Remove(b.loc); err == nil {
+			err = rerr
 		}
 	}
 
-	return nil
+	return err
 }
-- 
2.43.0


From 997e282475561187e3836f94230614842810c027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:49 +0000
Subject: [PATCH 21/26] fix: only lines of the form KEY=value configure PCP,
 and close the file

---
 config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 041b157..52fa574 100644
--- a/config.go
+++ b/config.go
@@ -17,7 +17,7 @@ var confPath string
 var config map[string]string
 
 // pat stores a valid key-value pattern line
-var pat = "([A-Z0-9_]+)=(.*)"
+var pat = "^([A-Z0-9_]+)=(.*)$"
 
 // initConfig initializes the config constants
 func initConfig() error {
@@ -39,6 +39,7 @@ func initConfig() error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 
 	// if we reach at this point, it means we have a valid config
 	// that can be read, so we can make the map non-nil
-- 
2.43.0


From fdacbe27c094db25735490ef3f7ccf28b59cb572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:04 +0000
Subject: [PATCH 22/26] fix: Dump must return an error for every malformed file

---
 mmvdump/mmvdump.go | 56 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/mmvdump/mmvdump.go b/mmvdump/mmvdump.go
index 5b980ca..46fa955 100644
--- a/mmvdump/mmvdump.go
+++ b/mmvdump/mmvdump.go
@@ -36,11 +36,20 @@ func readHeader(data []byte) (*Header, error) {
 		return nil, errors.Errorf("Mismatched version numbers, %v and %v", header.G1, header.G2)
 	}
 
+	if header.Version != 1 && header.Version != 2 {
+		return nil, errors.Errorf("Unsupported Version: %v", header.Version)
+	}
+
 	return header, nil
 }
 
+// fits checks that length bytes at the passed offset are inside the data
+func fits(data []byte, offset, length uint64) bool {
+	return offset <= uint64(len(data)) && length <= uint64(len(data))-offset
+}
+
 func readToc(data []byte, offset uint64) (*Toc, error) {
-	if uint64(len(data)) < offset+TocLength {
+	if !fits(data, offset, TocLength) {
 		return nil, errors.New("Incomplete/Partially Written TOC")
 	}
 
@@ -55,7 +64,7 @@ func readInstance(data []byte, offset uint64, version int32) (interface{}, error
 		InstanceLength = Instance2Length
 	}
 
-	if uint64(len(data)) < offset+InstanceLength {
+	if !fits(data, offset, InstanceLength) {
 		return nil, errors.New("Incomplete/Partially Written Instance")
 	}
 
@@ -67,7 +76,7 @@ func readInstance(data []byte, offset uint64, version int32) (interface{}, error
 }
 
 func readInstanceDomain(data []byte, offset uint64, version int32) (interface{}, error) {
-	if uint64(len(data)) < offset+InstanceDomainLength {
+	if !fits(data, offset, InstanceDomainLength) {
 		return nil, errors.New("Incomplete/Partially Written InstanceDomain")
 	}
 
@@ -80,7 +89,7 @@ func readMetric(data []byte, offset uint64, version int32) (interface{}, error)
 		MetricLength = Metric2Length
 	}
 
-	if uint64(len(data)) < offset+MetricLength {
+	if !fits(data, offset, MetricLength) {
 		return nil, errors.New("Incomplete/Partially Written Metric")
 	}
 
@@ -92,7 +101,7 @@ func readMetric(data []byte, offset uint64, version int32) (interface{}, error)
 }
 
 func readValue(data []byte, offset uint64, version int32) (interface{}, error) {
-	if uint64(len(data)) < offset+ValueLength {
+	if !fits(data, offset, ValueLength) {
 		return nil, errors.New("Incomplete/Partially Written Value")
 	}
 
@@ -100,7 +109,7 @@ func readValue(data []byte, offset uint64, version int32) (interface{}, error) {
 }
 
 func readString(data []byte, offset uint64, version int32) (interface{}, error) {
-	if uint64(len(data)) < offset+StringLength {
+	if !fits(data, offset, StringLength) {
 		return nil, errors.New("Incomplete/Partially Written String")
 	}
 
@@ -108,6 +117,10 @@ func readString(data []byte, offset uint64, version int32) (interface{}, error)
 }
 
 func readTocs(data []byte, count int32) ([]*Toc, error) {
+	if count < 0 || !fits(data, HeaderLength, uint64(count)*TocLength) {
+		return nil, errors.New("Incomplete/Partially Written TOC")
+	}
+
 	tocs := make([]*Toc, count)
 
 	for i := int32(0); i < count; i++ {
@@ -115,6 +128,17 @@ func readTocs(data []byte, count int32) ([]*Toc, error) {
 		if err != nil {
 			return nil, err
 		}
+
+		if t.Type < TocIndoms || t.Type > TocStrings {
+			return nil, errors.Errorf("Unknown TOC type: %v", t.Type)
+		}
+
+		for _, o := range tocs[:i] {
+			if o.Type == t.Type {
+				return nil, errors.Errorf("Repeated TOC type: %v", t.Type)
+			}
+		}
+
 		tocs[i] = t
 	}
 
@@ -122,6 +146,10 @@ func readTocs(data []byte, count int32) ([]*Toc, error) {
 }
 
 func readItems(data []byte, offset uint64, count int32, itemlength uint64, readItem itemReaderFunc, version int32) (map[uint64]interface{}, error) {
+	if count < 0 || (count > 0 && !fits(data, offset, uint64(count)*itemlength)) {
+		return nil, errors.New("Incomplete/Partially Written Section")
+	}
+
 	var wg sync.WaitGroup
 	wg.Add(int(count))
 
@@ -134,16 +162,14 @@ func readItems(data []byte, offset uint64, count int32, itemlength uint64, readI
 
 	for i := int32(0); i < count; i, offset = i+1, offset+itemlength {
 		go func(offset uint64) {
-			if err == nil {
-				item, ierr := readItem(data, offset, version)
-				if ierr == nil {
-					m.Lock()
-					items[offset] = item
-					m.Unlock()
-				} else {
-					err = ierr
-				}
+			item, ierr := readItem(data, offset, version)
+			m.Lock()
+			if ierr == nil {
+				items[offset] = item
+			} else {
+				err = ierr
 			}
+			m.Unlock()
 			wg.Done()
 		}(offset)
 	}
-- 
2.43.0


From 28f390b535a9ab05dd915e7347bf0bcbe20ecc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:43 +0000
Subject: [PATCH 23/26] fix: printing a dump with invalid references must
 return an error

---
 mmvdump/writer.go | 100 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 73 insertions(+), 27 deletions(-)

diff --git a/mmvdump/writer.go b/mmvdump/writer.go
index 3899532..a4bc746 100644
--- a/mmvdump/writer.go
+++ b/mmvdump/writer.go
@@ -7,11 +7,19 @@ import (
 	"github.com/pkg/errors"
 )
 
-func instanceName(m Instance, header *Header, strings map[uint64]*String) string {
+func payload(offset uint64, strings map[uint64]*String) (string, error) {
+	s, ok := strings[offset]
+	if !ok {
+		return "", errors.Errorf("invalid string address")
+	}
+	return string(s.Payload[:]), nil
+}
+
+func instanceName(m Instance, header *Header, strings map[uint64]*String) (string, error) {
 	if header.Version == 1 {
-		return string(m.(*Instance1).External[:])
+		return string(m.(*Instance1).External[:]), nil
 	}
-	return string(strings[m.(*Instance2).External].Payload[:])
+	return payload(m.(*Instance2).External, strings)
 }
 
 func writeInstance(
@@ -23,9 +31,15 @@ func writeInstance(
 	strings map[uint64]*String,
 ) error {
 	i := instances[offset]
-	indom := indoms[i.Indom()]
-	Name := instanceName(i, header, strings)
-	_, err := fmt.Fprintf(w, "\t[%v/%v] instance = [%v/%v]\n", indom.Serial, offset, i.Internal(), Name)
+	indom, ok := indoms[i.Indom()]
+	if !ok {
+		return errors.Errorf("invalid instance domain address")
+	}
+	Name, err := instanceName(i, header, strings)
+	if err != nil {
+		return err
+	}
+	_, err = fmt.Fprintf(w, "\t[%v/%v] instance = [%v/%v]\n", indom.Serial, offset, i.Internal(), Name)
 	return err
 }
 
@@ -46,7 +60,11 @@ func writeInstanceDomain(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", string(strings[indom.Shorttext].Payload[:])); err != nil {
+		shorttext, err := payload(indom.Shorttext, strings)
+		if err != nil {
+			return err
+		}
+		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", shorttext); err != nil {
 			return err
 		}
 	}
@@ -56,7 +74,11 @@ func writeInstanceDomain(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", string(strings[indom.Longtext].Payload[:])); err != nil {
+		longtext, err := payload(indom.Longtext, strings)
+		if err != nil {
+			return err
+		}
+		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", longtext); err != nil {
 			return err
 		}
 	}
@@ -64,11 +86,11 @@ func writeInstanceDomain(
 	return nil
 }
 
-func metricName(m Metric, header *Header, strings map[uint64]*String) string {
+func metricName(m Metric, header *Header, strings map[uint64]*String) (string, error) {
 	if header.Version == 1 {
-		return string(m.(*Metric1).Name[:])
+		return string(m.(*Metric1).Name[:]), nil
 	}
-	return string(strings[m.(*Metric2).Name].Payload[:])
+	return payload(m.(*Metric2).Name, strings)
 }
 
 func writeMetric(
@@ -79,13 +101,16 @@ func writeMetric(
 	strings map[uint64]*String,
 ) error {
 	m := metrics[offset]
-	Name := metricName(m, header, strings)
+	Name, err := metricName(m, header, strings)
+	if err != nil {
+		return err
+	}
 
 	if _, err := fmt.Fprintf(w, "\t[%v/%v] %v\n", m.Item(), offset, Name); err != nil {
 		return err
 	}
 
-	_, err := fmt.Fprintf(w, "\t\ttype=%v (0x%x), sem=%v (0x%x), pad=0x%x\n", m.Typ(), int(m.Typ()), m.Sem(), int(m.Sem()), m.Padding())
+	_, err = fmt.Fprintf(w, "\t\ttype=%v (0x%x), sem=%v (0x%x), pad=0x%x\n", m.Typ(), int(m.Typ()), m.Sem(), int(m.Sem()), m.Padding())
 	if err != nil {
 		return err
 	}
@@ -109,7 +134,11 @@ func writeMetric(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", string(strings[m.ShortText()].Payload[:])); err != nil {
+		shorttext, err := payload(m.ShortText(), strings)
+		if err != nil {
+			return err
+		}
+		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", shorttext); err != nil {
 			return err
 		}
 	}
@@ -119,7 +148,11 @@ func writeMetric(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", string(strings[m.LongText()].Payload[:])); err != nil {
+		longtext, err := payload(m.LongText(), strings)
+		if err != nil {
+			return err
+		}
+		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", longtext); err != nil {
 			return err
 		}
 	}
@@ -137,16 +170,21 @@ func writeValue(
 	strings map[uint64]*String,
 ) error {
 	v := values[offset]
-	m := metrics[v.Metric]
+	m, ok := metrics[v.Metric]
+	if !ok {
+		return errors.Errorf("invalid metric address")
+	}
 
-	if _, err := fmt.Fprintf(w, "\t[%v/%v] %v", m.Item(), offset, metricName(m, header, strings)); err != nil {
+	Name, err := metricName(m, header, strings)
+	if err != nil {
 		return err
 	}
 
-	var (
-		a   interface{}
-		err error
-	)
+	if _, err := fmt.Fprintf(w, "\t[%v/%v] %v", m.Item(), offset, Name); err != nil {
+		return err
+	}
+
+	var a interface{}
 
 	if m.Typ() != StringType {
 		a, err = FixedVal(v.Val, m.Typ())
@@ -154,16 +192,22 @@ func writeValue(
 			return err
 		}
 	} else {
-		v, ok := strings[uint64(v.Extra)]
-		if !ok {
-			return errors.Errorf("invalid string address")
+		a, err = payload(uint64(v.Extra), strings)
+		if err != nil {
+			return err
 		}
-		a = string(v.Payload[:])
 	}
 
 	if m.Indom() != NoIndom && m.Indom() != 0 {
-		i := instances[v.Instance]
-		if _, err := fmt.Fprintf(w, "[%d or \"%s\"]", i.Internal(), instanceName(i, header, strings)); err != nil {
+		i, ok := instances[v.Instance]
+		if !ok {
+			return errors.Errorf("invalid instance address")
+		}
+		instance, err := instanceName(i, header, strings)
+		if err != nil {
+			return err
+		}
+		if _, err := fmt.Fprintf(w, "[%d or \"%s\"]", i.Internal(), instance); err != nil {
 			return err
 		}
 	}
@@ -225,6 +269,8 @@ func writeComponents(
 			itemtype = "strings"
 			itemsize = StringLength
 			writeItem = func(off uint64) error { return writeString(w, off, strings) }
+		default:
+			return errors.Errorf("unknown TOC type: %v", toc.Type)
 		}
 
 		if _, err := fmt.Fprintf(w, "TOC[%v], offset: %v, %v offset: %v (%v entries)\n", ti, toff, itemtype, toc.Offset, toc.Count); err != nil {
-- 
2.43.0


From b3318ce5455ec9e50f931f8b13c73f13b416c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:49 +0000
Subject: [PATCH 24/26] fix: semantics constants of mmvdump must have the
 values of the file format

---
 mmvdump/pcp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmvdump/pcp.go b/mmvdump/pcp.go
index 2bf27a0..69840d3 100644
--- a/mmvdump/pcp.go
+++ b/mmvdump/pcp.go
@@ -372,7 +372,7 @@ type Semantics int32
 
 // Values for Semantics
 const (
-	NoSemantics Semantics = 0
+	NoSemantics Semantics = iota
 	CounterSemantics
 	_
 	InstantSemantics
-- 
2.43.0


From b6b942f60bd8684e494f42cb98ca2481c7b9a0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:29 +0000
Subject: [PATCH 25/26] fix: CounterVector.Inc must refuse an unknown instance
 for every increment

---
 metrics.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metrics.go b/metrics.go
index 70fbe99..854d757 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1225,15 +1225,15 @@ func (c *PCPCounterVector) Inc(inc int64, instance string) error {
 		return errors.New("increment cannot be negative")
 	}
 
-	if inc == 0 {
-		return nil
-	}
-
 	v, err := c.valInstance(instance)
 	if err != nil {
 		return err
 	}
 
+	if inc == 0 {
+		return nil
+	}
+
 	if v.(int64) > math.MaxInt64-inc {
 		return errors.Errorf("cannot increment instance %s by %v, its value is %v and PCP counters cannot go backwards", instance, inc, v)
 	}
-- 
2.43.0


From 6c9db5fa4aafd1770a1b2c525c884dc375f81010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:54 +0000
Subject: [PATCH 26/26] fix: Write stores the data as given when it overlaps
 the writer's own buffer

---
 bytewriter/bytewriter.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bytewriter/bytewriter.go b/bytewriter/bytewriter.go
index cca00d9..41021bd 100644
--- a/bytewriter/bytewriter.go
+++ b/bytewriter/bytewriter.go
@@ -38,9 +38,8 @@ func (w *ByteWriter) Write(data []byte, offset int) (int, error) {
 		return -1, errors.Errorf("cannot write %v bytes at offset %v", l, offset)
 	}
 
-	for i := 0; i < l; i++ {
-		w.buffer[offset+i] = data[i]
-	}
+	// the data may be a part of the buffer itself
+	copy(w.buffer[offset:], data)
 
 	return offset + l, nil
 }
-- 
2.43.0


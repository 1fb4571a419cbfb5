From 9a9296fe3b29f7ce2ef8b37db5dbd5bf4fe806ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:12 +0000
Subject: [PATCH 01/46] fix: config text with BOM or embedded NUL made
 ParseLogger loop for ever

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 03523cd..934212a 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1411,7 +1411,7 @@ namespace FNLog
             }
         }
         ls.first_ = first;
-        ls.end_ = first + text.length();
+        ls.end_ = first + strlen(first); //the lexer stops at the first '\0'
         memset(&ls.channels_, 0, sizeof(ls.channels_));
         ls.channel_size_ = 0;
         ls.hot_update_ = false;
-- 
2.43.0


From a7ed52b1cdcbb23354535cb507b0a02b48a9b05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:12 +0000
Subject: [PATCH 02/46] fix: define replaced by text containing itself made the
 parser loop for ever

---
 src/include/fn_parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 934212a..65dcc68 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -805,6 +805,7 @@ namespace FNLog
             if (bound_ok)
             {
                 memcpy(&text[text_offset], val.c_str(), val.length());
+                text_offset += val.length();
             }
         };
         return 0;
-- 
2.43.0


From 65351a9967c491e1240a760eb282eb1a1a5c871e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:12 +0000
Subject: [PATCH 03/46] fix: blanks before a var value were not trimmed

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 65dcc68..338612e 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -893,7 +893,7 @@ namespace FNLog
             }
 
             sep++;
-            while (sep < dot &&  IsBlank(line.at(offset)))
+            while (sep < dot &&  IsBlank(line.at(sep)))
             {
                 sep++;
             }
-- 
2.43.0


From b8d3dab19b7e447dbc3205b1b365642b672e8993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:12 +0000
Subject: [PATCH 04/46] fix: shm_key_ was uninitialised when the config has no
 shm_key

---
 src/include/fn_parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 338612e..87c6262 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1416,6 +1416,7 @@ namespace FNLog
         memset(&ls.channels_, 0, sizeof(ls.channels_));
         ls.channel_size_ = 0;
         ls.hot_update_ = false;
+        ls.shm_key_ = 0;
         ls.current_ = ls.first_;
         ls.line_no_ = 1; 
         ls.desc_len_ = 0;
-- 
2.43.0


From 1ebbe2858940baf3245e2328adf5561c0176d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:27 +0000
Subject: [PATCH 05/46] fix: out of range bits in lists and masks shifted by
 more than 63 (and huge ranges looped for ever)

---
 src/include/fn_channel.h            | 12 ++++++------
 src/include/fn_out_virtual_device.h |  4 ++--
 src/include/fn_parse.h              | 21 ++++++++++++++++-----
 3 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index c49c8ab..af88ca6 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -82,11 +82,11 @@ namespace FNLog
             {
                 continue;
             }
-            if (category_mask && (category_mask & ((1ULL) << (unsigned int)log.category_)) == 0)
+            if (category_mask && (category_mask & ((1ULL) << ((unsigned int)log.category_ & 63))) == 0)
             {
                 continue;
             }
-            if (identify_mask && (identify_mask & ((1ULL) << (unsigned int)log.identify_)) == 0)
+            if (identify_mask && (identify_mask & ((1ULL) << ((unsigned int)log.identify_ & 63))) == 0)
             {
                 continue;
             }
@@ -366,11 +366,11 @@ namespace FNLog
         {
             return true;
         }
-        if (category_mask && (category_mask & ((1ULL) << (unsigned int)category)) == 0)
+        if (category_mask && (category_mask & ((1ULL) << ((unsigned int)category & 63))) == 0)
         {
             return true;
         }
-        if (identify_mask && (identify_mask & ((1ULL) << (unsigned int)identify)) == 0)
+        if (identify_mask && (identify_mask & ((1ULL) << ((unsigned int)identify & 63))) == 0)
         {
             return true;
         }
@@ -406,11 +406,11 @@ namespace FNLog
             {
                 continue;
             }
-            if (field_category_mask &&  (field_category_mask & ((1ULL) << (unsigned int)category)) == 0)
+            if (field_category_mask &&  (field_category_mask & ((1ULL) << ((unsigned int)category & 63))) == 0)
             {
                 continue;
             }
-            if (field_identify_mask &&  (field_identify_mask & ((1ULL) << (unsigned int)identify)) == 0)
+            if (field_identify_mask &&  (field_identify_mask & ((1ULL) << ((unsigned int)identify & 63))) == 0)
             {
                 continue;
             }
diff --git a/src/include/fn_out_virtual_device.h b/src/include/fn_out_virtual_device.h
index 0bc34ef..effb4a0 100644
--- a/src/include/fn_out_virtual_device.h
+++ b/src/include/fn_out_virtual_device.h
@@ -51,11 +51,11 @@ namespace FNLog
             {
                 return;
             }
-            if (field_category_mask && (field_category_mask & ((1ULL) << (unsigned int)log.category_)) == 0)
+            if (field_category_mask && (field_category_mask & ((1ULL) << ((unsigned int)log.category_ & 63))) == 0)
             {
                 return;
             }
-            if (field_identify_mask && (field_identify_mask & ((1ULL) << (unsigned int)log.identify_)) == 0)
+            if (field_identify_mask && (field_identify_mask & ((1ULL) << ((unsigned int)log.identify_ & 63))) == 0)
             {
                 return;
             }
diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 87c6262..2b3af82 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -697,6 +697,16 @@ namespace FNLog
         return;
     }
 
+    inline int ParseBitOffset(const char* number)
+    {
+        int bit = 0;
+        while (*number >= '0' && *number <= '9' && bit < 64)
+        {
+            bit = bit * 10 + (*number++ - '0');
+        }
+        return bit < 64 ? bit : 64;
+    }
+
     inline unsigned long long ParseBitArray(const char* begin, const char* end)
     {
         unsigned long long bitmap = 0;
@@ -716,7 +726,8 @@ namespace FNLog
                 break;
             }
 
-            int bit_offset_first = atoi(offset);
+            //a bitmap has 64 bits, anything beyond is out of the list
+            int bit_offset_first = ParseBitOffset(offset);
             while (offset < end && (IsNumber(*offset) || IsBlank(*offset)))
             {
                 offset++;
@@ -724,7 +735,7 @@ namespace FNLog
 
             if (offset == end || *offset != '-') //
             {
-                bitmap |= (1ULL << bit_offset_first);
+                bitmap |= bit_offset_first < 64 ? (1ULL << bit_offset_first) : 0ULL;
                 continue;
             }
 
@@ -735,12 +746,12 @@ namespace FNLog
 
             if (offset == end || !IsNumber(*offset))
             {
-                bitmap |= (1ULL << bit_offset_first);
+                bitmap |= bit_offset_first < 64 ? (1ULL << bit_offset_first) : 0ULL;
                 continue;
             }
 
-            int bit_offset_last = atoi(offset);
-            for (int i = (std::min)(bit_offset_first, bit_offset_last); i <= (std::max)(bit_offset_first, bit_offset_last); i++)
+            int bit_offset_last = ParseBitOffset(offset);
+            for (int i = (std::min)(bit_offset_first, bit_offset_last); i <= (std::max)(bit_offset_first, bit_offset_last) && i < 64; i++)
             {
                 bitmap |= (1ULL << i);
             }
-- 
2.43.0


From 1c32cc10e915acb94c760fe2fc081452c12abc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:47 +0000
Subject: [PATCH 06/46] fix: hook was called for channels without virtual
 device and for a disabled virtual device

---
 src/include/fn_out_virtual_device.h | 5 +++++
 src/include/fn_parse.h              | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/include/fn_out_virtual_device.h b/src/include/fn_out_virtual_device.h
index effb4a0..1848542 100644
--- a/src/include/fn_out_virtual_device.h
+++ b/src/include/fn_out_virtual_device.h
@@ -42,6 +42,11 @@ namespace FNLog
             long long field_identify_count = fields[FNLog::DEVICE_CFG_IDENTIFY_EXTEND];
             unsigned long long field_identify_mask = (unsigned long long)fields[FNLog::DEVICE_CFG_IDENTIFY_MASK];
 
+            if (!fields[FNLog::DEVICE_CFG_ABLE])
+            {
+                return;
+            }
+
             if (field_category_count > 0 && (log.category_ < field_begin_category || log.category_ >= field_begin_category + field_category_count))
             {
                 return;
diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 2b3af82..5964a7a 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1506,6 +1506,7 @@ namespace FNLog
                     Channel& channel = ls.channels_[ls.channel_size_++];
                     memset(&channel, 0, sizeof(channel));
                     channel.channel_id_ = channel_id;
+                    channel.virtual_device_id_ = -1; //no virtual device
                     ret = ParseChannel(ls, channel, ls.line_.blank_);
                     if (ret != 0)
                     {
-- 
2.43.0


From 8e7facbf722b392c33824dfc111092029ce70ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:47 +0000
Subject: [PATCH 07/46] fix: channel identify and category were truncated to 32
 bits, unlike those of devices

---
 src/include/fn_parse.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 5964a7a..dfb53ee 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1336,10 +1336,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_PRIORITY] = ParsePriority(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_CATEGORY:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY] = atoll(ls.line_.val_begin_);
                 break;            
             case RK_CATEGORY_EXTEND:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY_EXTEND] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY_EXTEND] = atoll(ls.line_.val_begin_);
                 break;
             case RK_CATEGORY_WLIST:
                 channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
@@ -1354,10 +1354,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY_EXTEND:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_EXTEND] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_EXTEND] = atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY_WLIST:
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
-- 
2.43.0


From 038798f0d1633810b049a24ff8c7566c0bd45fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:47 +0000
Subject: [PATCH 08/46] fix: an undefined key was reported one line too low

---
 src/include/fn_parse.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index dfb53ee..a3161b2 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1295,6 +1295,9 @@ namespace FNLog
 
                 break;
             default:
+                //logic error:
+                ls.current_ = current;
+                ls.line_no_--;
                 return PEC_UNDEFINED_DEVICE_KEY;
             }
         } while (ls.current_ < ls.end_);
@@ -1404,6 +1407,9 @@ namespace FNLog
                 }
                 break;
             default:
+                //logic error:
+                ls.current_ = current;
+                ls.line_no_--;
                 return PEC_UNDEFINED_CHANNEL_KEY;
             }
 
@@ -1515,6 +1521,9 @@ namespace FNLog
                 }
                 break;
             default:
+                //logic error:
+                ls.current_ = current;
+                ls.line_no_--;
                 return PEC_UNDEFINED_GLOBAL_KEY;
             }
         } while (ls.current_ < ls.end_);
-- 
2.43.0


From 4b3c383742eb1e6072612123fce04a5760e259cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:05 +0000
Subject: [PATCH 09/46] fix: a huge limit_size overflowed

---
 src/include/fn_parse.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index a3161b2..fd2aa88 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1233,7 +1233,8 @@ namespace FNLog
                 device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~atoll(ls.line_.val_begin_);
                 break;
             case RK_LIMIT_SIZE:
-                device.config_fields_[DEVICE_CFG_FILE_LIMIT_SIZE] = atoll(ls.line_.val_begin_) * 1000*1000;
+                //clamp: the size in bytes must not overflow
+                device.config_fields_[DEVICE_CFG_FILE_LIMIT_SIZE] = FN_MAX(FN_MIN(atoll(ls.line_.val_begin_), 9000000000000LL), -1LL) * 1000*1000;
                 break;
             case RK_ROLLBACK:
                 device.config_fields_[DEVICE_CFG_FILE_ROLLBACK] = atoll(ls.line_.val_begin_);
-- 
2.43.0


From 84af98306149390098bdea3b14b3c4a29bda60f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:05 +0000
Subject: [PATCH 10/46] fix: resolved udp address was read beyond its 4 bytes

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index fd2aa88..2c4d9cb 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -652,7 +652,7 @@ namespace FNLog
                     struct in_addr addr;
                     while (rhost->h_addr_list[i] != 0) 
                     {
-                        addr.s_addr = *(u_long*)rhost->h_addr_list[i++];
+                        memcpy(&addr, rhost->h_addr_list[i++], sizeof(addr));
                         return std::make_pair((long long)inet_addr(inet_ntoa(addr)), ip_end);
                         //printf("%s", inet_ntoa(addr));
                     }
-- 
2.43.0


From ebbf30155baecfa91cc625d2d41d1e8d41aeb3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:24 +0000
Subject: [PATCH 11/46] fix: StopLogger and the config/log accessors crashed
 before the first start

---
 src/include/fn_core.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 7e27e9d..2ae27a4 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -169,6 +169,11 @@ namespace FNLog
 
     inline int StopLogger(Logger& logger)
     {
+        if (logger.shm_ == NULL)
+        {
+            printf("StopLogger error. logger not init %p.\n", (void*)logger.shm_);
+            return E_LOGGER_NOT_INIT;
+        }
         if (logger.shm_->channel_size_ > Logger::MAX_CHANNEL_SIZE || logger.shm_->channel_size_ <= 0)
         {
             printf("StopLogger error. channel size:<%d> invalid.\n", logger.shm_->channel_size_);
@@ -263,7 +268,7 @@ namespace FNLog
 
     inline long long GetChannelLog(Logger& logger, int channel_id, ChannelLogEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -277,7 +282,7 @@ namespace FNLog
 
     inline void SetChannelConfig(Logger& logger, int channel_id, ChannelConfigEnum field, long long val)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return;
         }
@@ -291,7 +296,7 @@ namespace FNLog
 
     inline long long GetDeviceLog(Logger& logger, int channel_id, int device_id, DeviceLogEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -309,7 +314,7 @@ namespace FNLog
 
     inline void SetDeviceConfig(Logger& logger, int channel_id, int device_id, DeviceConfigEnum field, long long val)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return;
         }
@@ -327,7 +332,7 @@ namespace FNLog
 
     inline long long GetDeviceConfig(Logger& logger, int channel_id, int device_id, DeviceConfigEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -345,7 +350,7 @@ namespace FNLog
 
     inline void BatchSetChannelConfig(Logger& logger, ChannelConfigEnum cce, long long v)
     {
-        for (int i = 0; i < logger.shm_->channel_size_; i++)
+        for (int i = 0; logger.shm_ != NULL && i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
             channel.config_fields_[cce] = v;
@@ -354,7 +359,7 @@ namespace FNLog
 
     inline void BatchSetDeviceConfig(Logger& logger, DeviceOutType out_type, DeviceConfigEnum dce, long long v)
     {
-        for (int i = 0; i < logger.shm_->channel_size_; i++)
+        for (int i = 0; logger.shm_ != NULL && i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
             for (int j = 0; j < channel.device_size_; j++)
-- 
2.43.0


From aff45462aba7ca0e4d354796c75cfb92192603e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:24 +0000
Subject: [PATCH 12/46] fix: restart with another shm_key released the queue
 memory the wrong way

---
 src/include/fn_load.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 8147776..0fafb0f 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -215,9 +215,10 @@ namespace FNLog
         }
         logger.yaml_path_ = path;
         logger.hot_update_ = ls->hot_update_;
-        logger.shm_key_ = ls->shm_key_;
         if (logger.shm_ == NULL)
         {
+            //the key belongs to the loaded memory, a restart keeps both.
+            logger.shm_key_ = ls->shm_key_;
             ret = LoadSharedMemory(logger);
             if (ret != 0 || logger.shm_ == NULL)
             {
-- 
2.43.0


From 5bf8898712940f7b160ca3d49b0971ca4cf1089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:24 +0000
Subject: [PATCH 13/46] fix: hot update in the writer thread deadlocked with
 StopLogger

---
 src/include/fn_load.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 0fafb0f..c2c63c9 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -324,7 +324,13 @@ namespace FNLog
         }
 
 
-        Logger::StateLockGuard state_guard(logger.state_lock_);
+        //never wait here: StopLogger holds the lock while it waits for this thread.
+        std::unique_lock<Logger::StateLock> state_guard(logger.state_lock_, std::try_to_lock);
+        if (!state_guard.owns_lock())
+        {
+            dst_chl.last_hot_check_ = 0; //retry
+            return E_LOGGER_IN_USE;
+        }
         if (logger.logger_state_ != LOGGER_STATE_RUNNING)
         {
             return E_LOGGER_NOT_RUNNING;
-- 
2.43.0


From 9466575879b8cc76da8484a212f997975a9e5448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:15 +0000
Subject: [PATCH 14/46] fix: undefined behaviour and missing leading zeros in
 the integer writers

---
 src/include/fn_fmt.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index fe8e408..16fd259 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -82,8 +82,8 @@ namespace FNLog
         if (number < 0)
         {
             *dst = '-';
-            number = -number;
-            return 1 + write_dec_unsafe<WIDE - 1>(dst + 1, (unsigned long long) number);
+            //negate as unsigned, the minimum has no positive counterpart
+            return 1 + write_dec_unsafe<WIDE - 1>(dst + 1, 0ULL - (unsigned long long) number);
         }
         return write_dec_unsafe<WIDE>(dst, (unsigned long long) number);
     }
@@ -160,7 +160,7 @@ namespace FNLog
 
         int real_wide = 0;
 #ifndef WIN32
-        real_wide = sizeof(number) * 8 - __builtin_clzll(number);
+        real_wide = sizeof(number) * 8 - __builtin_clzll(number | 1); //clz of zero is undefined
 #else
         unsigned long win_index = 0;
         if (_BitScanReverse(&win_index, (unsigned long)(number >> 32)))
@@ -225,7 +225,7 @@ namespace FNLog
 
         int real_wide = 0;
 #ifndef WIN32
-        real_wide = sizeof(number) * 8 - __builtin_clzll(number);
+        real_wide = sizeof(number) * 8 - __builtin_clzll(number | 1); //clz of zero is undefined
 #else
         unsigned long win_index = 0;
         _BitScanReverse64(&win_index, number);
@@ -242,7 +242,7 @@ namespace FNLog
             number >>= 1;
             *(dst + cur_wide - 1) = lut[m2];
             cur_wide--;
-        } while (number);
+        } while (cur_wide);
         return real_wide;
     }
 
-- 
2.43.0


From c792627abd9a7624f28a509f1d801f3f61c4e4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:15 +0000
Subject: [PATCH 15/46] fix: the sign of small negative numbers and of -inf was
 lost

---
 src/include/fn_fmt.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index 16fd259..2f1a90d 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -256,6 +256,11 @@ namespace FNLog
             *dst = '0';
             return 1;
         case FP_INFINITE:
+            if (std::signbit(number))
+            {
+                memcpy(dst, "-inf", 4);
+                return 4;
+            }
             memcpy(dst, "inf", 3);
             return 3;
         case FP_NAN:
@@ -273,7 +278,7 @@ namespace FNLog
         {
             if (fabst < 0.0001 && fabst > 0.0000001)
             {
-                snprintf(dst, 30, "%.08lf", fabst);
+                snprintf(dst, 30, "%.08lf", number);
             }
             else
             {
-- 
2.43.0


From 87fea53da1a8b528c102b3c609339cb62599f82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:15 +0000
Subject: [PATCH 16/46] fix: wrong clock time in records on days with a clock
 change

---
 src/include/fn_fmt.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index 2f1a90d..af1340a 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -326,17 +326,13 @@ namespace FNLog
         static thread_local tm cache_date = { 0 };
         static thread_local long long cache_timestamp = 0;
         static const char date_fmt[] = "[20190412 13:05:35.417]";
-        long long day_second = timestamp - cache_timestamp;
-        if (day_second < 0 || day_second >= 24*60*60)
+        //a day has not always 24 hours, cache only the second.
+        if (timestamp != cache_timestamp || cache_date.tm_mday == 0)
         {
             cache_date = FileHandler::time_to_tm((time_t)timestamp);
-            struct tm daytm = cache_date;
-            daytm.tm_hour = 0;
-            daytm.tm_min = 0;
-            daytm.tm_sec = 0;
-            cache_timestamp = mktime(&daytm);
-            day_second = timestamp - cache_timestamp;
+            cache_timestamp = timestamp;
         }
+        long long day_second = cache_date.tm_hour * 3600 + cache_date.tm_min * 60 + cache_date.tm_sec;
         int write_bytes = 0;
 
         *(dst + write_bytes++) = '[';
-- 
2.43.0


From 21eccb7ce741700b5ea7ac8b643347a065097e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:15 +0000
Subject: [PATCH 17/46] fix: long file, function or logger names in the prefix
 overran the record

---
 src/include/fn_stream.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/include/fn_stream.h b/src/include/fn_stream.h
index d361d99..8816aae 100644
--- a/src/include/fn_stream.h
+++ b/src/include/fn_stream.h
@@ -130,46 +130,46 @@ namespace FNLog
             }
             if (prefix & LOG_PREFIX_NAME)
             {
-                write_char_unsafe('[');
-                write_buffer_unsafe(logger.name_, logger.name_len_);
-                write_char_unsafe(']');
+                *this << '[';
+                write_buffer(logger.name_, logger.name_len_);
+                *this << ']';
             }
             if (prefix & LOG_PREFIX_DESC)
             {
-                write_char_unsafe('[');
-                write_buffer_unsafe(logger.desc_, logger.desc_len_);
-                write_char_unsafe(']');
+                *this << '[';
+                write_buffer(logger.desc_, logger.desc_len_);
+                *this << ']';
             }
             if (prefix & LOG_PREFIX_FILE)
             {
-                write_char_unsafe('[');
+                *this << '[';
                 if (file_name && file_name_len > 0)
                 {
                     int jump_bytes = short_path(file_name, file_name_len);
-                    write_buffer_unsafe(file_name + jump_bytes, file_name_len - jump_bytes);
+                    write_buffer(file_name + jump_bytes, file_name_len - jump_bytes);
                 }
                 else
                 {
-                    write_buffer_unsafe("nofile", 6);
+                    write_buffer("nofile", 6);
                 }
-                write_char_unsafe(':');
+                *this << ':';
                 *this << (unsigned long long)line;
-                write_char_unsafe(']');
+                *this << ']';
             }
             if (prefix & LOG_PREFIX_FUNCTION)
             {
-                write_char_unsafe('(');
+                *this << '(';
                 if (func_name && func_name_len > 0)
                 {
-                    write_buffer_unsafe(func_name, func_name_len);
+                    write_buffer(func_name, func_name_len);
                 }
                 else
                 {
-                    write_buffer_unsafe("null", 4);
+                    write_buffer("null", 4);
                 }
-                write_char_unsafe(')');
+                *this << ')';
             }
-            write_char_unsafe(' ');
+            *this << ' ';
             log_data_->prefix_len_ = log_data_->content_len_;
         }
         
-- 
2.43.0


From d2cfa2eed67bd0b86fbe62dd30bc6adde535c137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:15 +0000
Subject: [PATCH 18/46] fix: a priority out of range corrupted the statistics

---
 src/include/fn_channel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index af88ca6..b7e173c 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -276,7 +276,7 @@ namespace FNLog
         (void)logger;
         (void)prefix;
         log.channel_id_ = channel_id;
-        log.priority_ = priority;
+        log.priority_ = FN_MAX((int)PRIORITY_TRACE, FN_MIN(priority, (int)PRIORITY_FATAL)); //safety to record channel log CHANNEL_LOG_PRIORITY
         log.category_ = category;
         log.identify_ = identify;
         log.code_line_ = 0;
-- 
2.43.0


From e4ae216f5615590d0cf876f216159a50f5b16f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:23 +0000
Subject: [PATCH 19/46] fix: text of a received datagram was not terminated

---
 src/include/fn_channel.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index b7e173c..7d32430 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -242,9 +242,10 @@ namespace FNLog
                     ring_buffer.udp_buffer_.content_len_ = udp.read(ring_buffer.udp_buffer_.content_, LogData::LOG_SIZE);
                     if (ring_buffer.udp_buffer_.content_len_ == LogData::LOG_SIZE)
                     {
-                        ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 2] = '\n';
-                        ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 1] = '\0';
+                        ring_buffer.udp_buffer_.content_len_--;
+                        ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 1] = '\n';
                     }
+                    ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_] = '\0';
                     if (ring_buffer.udp_buffer_.content_len_ == 0)
                     {
                         break;
-- 
2.43.0


From 39ebc4b6a0a74b3d893d45c497af2f195fc8b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:41 +0000
Subject: [PATCH 20/46] fix: daily rolling was an hour late after a day with a
 clock change

---
 src/include/fn_out_file_device.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index 64e7e8f..268cdb2 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -212,10 +212,13 @@ namespace FNLog
             //daily rolling
             if (AtomicLoadC(device, DEVICE_CFG_FILE_ROLLDAILY))
             {
-                if (log.timestamp_ < AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_DAY)
-                    || log.timestamp_ >= AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_DAY) + 24 * 3600)
+                //a day with a clock change has not 24 hours, so near its end (or when time goes back) compare the dates. 
+                if (log.timestamp_ < AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_TIMESTAMP)
+                    || log.timestamp_ >= AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_DAY) + 22 * 3600)
                 {
-                    close_file = true;
+                    tm create = FileHandler::time_to_tm((time_t)AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_TIMESTAMP));
+                    tm cur = FileHandler::time_to_tm((time_t)log.timestamp_);
+                    close_file = create.tm_year != cur.tm_year || create.tm_yday != cur.tm_yday;
                 }
                 break;
             }
-- 
2.43.0


From 1b19e449fa50c3ecc76b2c8c11a9105efcb94fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:57 +0000
Subject: [PATCH 21/46] fix: a producer delayed for one queue round overwrote
 or published a foreign slot (ABA of ring indices)

---
 src/include/fn_channel.h | 39 +++++++++++++++------------------------
 src/include/fn_core.h    |  4 ++--
 src/include/fn_data.h    |  8 ++++----
 src/include/fn_load.h    | 21 ++++++++-------------
 4 files changed, 29 insertions(+), 43 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 7d32430..50b54ec 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -106,8 +106,8 @@ namespace FNLog
             bool empty_tick = true;
             do
             {
-                int old_idx = ring_buffer.proc_idx_.load(std::memory_order_acquire);
-                int next_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
+                long long old_idx = ring_buffer.proc_idx_.load(std::memory_order_acquire);
+                long long next_idx = old_idx + 1;
                 if (old_idx == ring_buffer.write_idx_.load(std::memory_order_acquire))
                 {
                     //empty branch    
@@ -120,23 +120,14 @@ namespace FNLog
                     //only one thread get log. this branch will not hit.   
                     break;
                 }
-                auto& cur_log = ring_buffer.buffer_[old_idx];
+                auto& cur_log = ring_buffer.buffer_[old_idx % RingBuffer::BUFFER_LEN];
                 DispatchLog(logger, channel, cur_log);
                 cur_log.data_mark_ = 0;
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED, 1);
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED_BYTES, cur_log.content_len_);
                 flush_count ++;
                 empty_tick = false;
-                int write_id = ring_buffer.write_idx_.load(std::memory_order_acquire);
-                int proc_que_size = 0;
-                if (old_idx <= write_id)
-                {
-                    proc_que_size = write_id - old_idx;
-                }
-                else
-                {
-                    proc_que_size = write_id + RingBuffer::BUFFER_LEN - old_idx;
-                }
+                long long proc_que_size = ring_buffer.write_idx_.load(std::memory_order_acquire) - old_idx;
 
                 if (proc_que_size > AtomicLoadChannelLog(channel, CHANNEL_LOG_MAX_PROC_QUE_SIZE))
                 {
@@ -156,12 +147,12 @@ namespace FNLog
                 {
                     //set read index to proc index  
                     old_idx = ring_buffer.read_idx_.load(std::memory_order_acquire);
-                    next_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
+                    next_idx = old_idx + 1;
                     if (old_idx == ring_buffer.proc_idx_.load(std::memory_order_acquire))
                     {
                         break;
                     }
-                    if (ring_buffer.buffer_[old_idx].data_mark_.load(std::memory_order_acquire) != MARK_INVALID)
+                    if (ring_buffer.buffer_[old_idx % RingBuffer::BUFFER_LEN].data_mark_.load(std::memory_order_acquire) != MARK_INVALID)
                     {
                         break;
                     }
@@ -453,17 +444,17 @@ namespace FNLog
                 {
                     break;
                 }
-                int old_idx = ring_buffer.hold_idx_.load(std::memory_order_acquire);
-                int hold_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
-                if (hold_idx == ring_buffer.read_idx_.load(std::memory_order_acquire))
+                long long old_idx = ring_buffer.hold_idx_.load(std::memory_order_acquire);
+                if (old_idx + 1 - ring_buffer.read_idx_.load(std::memory_order_acquire) >= RingBuffer::BUFFER_LEN)
                 {
                     break;
                 }
-                if (ring_buffer.hold_idx_.compare_exchange_strong(old_idx, hold_idx))
+                if (ring_buffer.hold_idx_.compare_exchange_strong(old_idx, old_idx + 1))
                 {
                     AtomicIncChannelLog(channel, CHANNEL_LOG_HOLD, 1);
-                    ring_buffer.buffer_[old_idx].data_mark_.store(MARK_HOLD, std::memory_order_release);
-                    return old_idx;
+                    int hold_idx = (int)(old_idx % RingBuffer::BUFFER_LEN);
+                    ring_buffer.buffer_[hold_idx].data_mark_.store(MARK_HOLD, std::memory_order_release);
+                    return hold_idx;
                 }
                 continue;
             }
@@ -502,13 +493,13 @@ namespace FNLog
 
         do
         {
-            int old_idx = ring_buffer.write_idx_.load(std::memory_order_acquire);
-            int next_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
+            long long old_idx = ring_buffer.write_idx_.load(std::memory_order_acquire);
+            long long next_idx = old_idx + 1;
             if (old_idx == ring_buffer.hold_idx_.load(std::memory_order_acquire))
             {
                 break;
             }
-            if (ring_buffer.buffer_[old_idx].data_mark_.load(std::memory_order_acquire) != 2)
+            if (ring_buffer.buffer_[old_idx % RingBuffer::BUFFER_LEN].data_mark_.load(std::memory_order_acquire) != 2)
             {
                 break;
             }
diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 2ae27a4..9e50303 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -155,8 +155,8 @@ namespace FNLog
 
             while (ring_buffer.read_idx_ != ring_buffer.write_idx_)
             {
-                ring_buffer.buffer_[ring_buffer.read_idx_].data_mark_ = 0;
-                ring_buffer.read_idx_ = (ring_buffer.read_idx_ + 1) % RingBuffer::BUFFER_LEN;
+                ring_buffer.buffer_[ring_buffer.read_idx_ % RingBuffer::BUFFER_LEN].data_mark_ = 0;
+                ring_buffer.read_idx_++;
             }
             ring_buffer.read_idx_ = 0;
             ring_buffer.proc_idx_ = 0;
diff --git a/src/include/fn_data.h b/src/include/fn_data.h
index bc76703..d038b7b 100644
--- a/src/include/fn_data.h
+++ b/src/include/fn_data.h
@@ -284,13 +284,13 @@ namespace FNLog
         static_assert(BUFFER_LEN > 10, "ring queue size too little");
     public:
         char chunk_1_[CHUNK_SIZE];
-        std::atomic_int write_idx_;
+        std::atomic_llong write_idx_; //count from start, never wrap; the slot is idx % BUFFER_LEN
         char chunk_2_[CHUNK_SIZE];
-        std::atomic_int hold_idx_;
+        std::atomic_llong hold_idx_;
         char chunk_3_[CHUNK_SIZE];
-        std::atomic_int read_idx_;
+        std::atomic_llong read_idx_;
         char chunk_4_[CHUNK_SIZE];
-        std::atomic_int proc_idx_;
+        std::atomic_llong proc_idx_;
         char chunk_5_[CHUNK_SIZE];
         LogData buffer_[BUFFER_LEN];
         char chunk_6_[CHUNK_SIZE];
diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index c2c63c9..fb19359 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -97,15 +97,17 @@ namespace FNLog
                 return E_SHM_VERSION_WRONG;
             }
 
-            if (shm->ring_buffers_[i].write_idx_ >= RingBuffer::BUFFER_LEN
-                || shm->ring_buffers_[i].write_idx_ < 0)
+            if (shm->ring_buffers_[i].read_idx_ < 0
+                || shm->ring_buffers_[i].write_idx_ < shm->ring_buffers_[i].read_idx_
+                || shm->ring_buffers_[i].hold_idx_ < shm->ring_buffers_[i].write_idx_
+                || shm->ring_buffers_[i].hold_idx_ - shm->ring_buffers_[i].read_idx_ >= RingBuffer::BUFFER_LEN)
             {
                 return E_SHM_VERSION_WRONG;
             }
 
             while (shm->ring_buffers_[i].write_idx_.load() != shm->ring_buffers_[i].hold_idx_.load())
             {
-                auto& log = shm->ring_buffers_[i].buffer_[shm->ring_buffers_[i].write_idx_];
+                auto& log = shm->ring_buffers_[i].buffer_[shm->ring_buffers_[i].write_idx_ % RingBuffer::BUFFER_LEN];
                 log.data_mark_ = 2;
                 log.priority_ = PRIORITY_FATAL;
                 std::string core_desc = "!!!core recover!!!";
@@ -116,20 +118,13 @@ namespace FNLog
                 log.content_[log.content_len_++] = '\n';
                 log.content_[log.content_len_] = '\0';
 
-                shm->ring_buffers_[i].write_idx_ = (shm->ring_buffers_[i].write_idx_ + 1) % RingBuffer::BUFFER_LEN;
-            }
-            shm->ring_buffers_[i].hold_idx_ = shm->ring_buffers_[i].write_idx_.load();
-
-            if (shm->ring_buffers_[i].read_idx_ >= RingBuffer::BUFFER_LEN
-                || shm->ring_buffers_[i].read_idx_ < 0)
-            {
-                return -10;
+                shm->ring_buffers_[i].write_idx_++;
             }
             shm->ring_buffers_[i].proc_idx_ = shm->ring_buffers_[i].read_idx_.load();
             if (shm->ring_buffers_[i].read_idx_ != 0 || shm->ring_buffers_[i].write_idx_ != 0)
             {
-                printf("attach shm key:<0x%llx> channel:<%d>, write:<%d>, read:<%d> \n", logger.shm_key_,
-                    i, shm->ring_buffers_[i].write_idx_.load(), (int)shm->ring_buffers_[i].read_idx_.load());
+                printf("attach shm key:<0x%llx> channel:<%d>, write:<%lld>, read:<%lld> \n", logger.shm_key_,
+                    i, shm->ring_buffers_[i].write_idx_.load(), shm->ring_buffers_[i].read_idx_.load());
             }
         }
         logger.shm_ = shm;
-- 
2.43.0


From e99ba3faccb7949b0c5e20bbc3115e74779bd24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:57 +0000
Subject: [PATCH 22/46] fix: threads logging to a sync channel wrote records
 out of order

---
 src/include/fn_channel.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 50b54ec..b1bcb8e 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -24,8 +24,7 @@ namespace FNLog
     {
         Channel& channel = logger.shm_->channels_[channel_id];
         Device& device = channel.devices_[device_id];
-        //async promise only single thread proc. needn't lock.
-        Logger::ReadGuard rg(logger.read_locks_[channel_id], channel.channel_type_ == CHANNEL_ASYNC);
+        //async promise only single thread proc. needn't lock. sync is locked by the caller of EnterProcChannel.  
         switch (device.out_type_)
         {
         case DEVICE_OUT_SCREEN:
@@ -511,6 +510,8 @@ namespace FNLog
 
         if (channel.channel_type_ == CHANNEL_SYNC && channel.channel_state_ == CHANNEL_STATE_RUNNING)
         {
+            //one thread drains the queue at a time, else the records are out of order between (and in) the devices.
+            Logger::ReadGuard rg(logger.read_locks_[channel_id]);
             EnterProcChannel(logger, channel_id); //no affect channel.single_thread_write_
         }
         return 0;
-- 
2.43.0


From 0baaa17e24faef699421e119455a0805df586f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 23/46] fix: records behind a log call in progress were lost by
 StopLogger, and that call corrupted the queue

---
 src/include/fn_channel.h | 128 ++++++++++++++++++++++++++-------------
 src/include/fn_core.h    |  27 ++-------
 src/include/fn_data.h    |   5 +-
 3 files changed, 96 insertions(+), 64 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index b1bcb8e..c94c890 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -95,6 +95,57 @@ namespace FNLog
 
     inline void InitLogData(Logger& logger, LogData& log, int channel_id, int priority, int category, unsigned long long identify, unsigned int prefix);
  
+    //publish all ready slots in order; a stop also passes over the slots still in progress.
+    inline void PublishChannel(Channel& channel, RingBuffer& ring_buffer, bool stopping)
+    {
+        do
+        {
+            long long old_idx = ring_buffer.write_idx_.load(std::memory_order_acquire);
+            long long next_idx = old_idx + 1;
+            if (old_idx >= ring_buffer.hold_idx_.load(std::memory_order_acquire))
+            {
+                break;
+            }
+            std::atomic_int& data_mark = ring_buffer.buffer_[old_idx % RingBuffer::BUFFER_LEN].data_mark_;
+            int mark = data_mark.load(std::memory_order_acquire);
+            if (mark != MARK_READY)
+            {
+                if (!stopping)
+                {
+                    break;
+                }
+                if (!data_mark.compare_exchange_strong(mark, MARK_ABANDON))
+                {
+                    continue;
+                }
+                ring_buffer.write_idx_.compare_exchange_strong(old_idx, next_idx);
+                continue;
+            }
+            if (ring_buffer.write_idx_.compare_exchange_strong(old_idx, next_idx))
+            {
+                AtomicIncChannelLog(channel, CHANNEL_LOG_PUSH, 1);
+            }
+        } while (true);
+    }
+
+    //set read index to proc index  
+    inline void ReleaseChannel(RingBuffer& ring_buffer)
+    {
+        do
+        {
+            long long old_idx = ring_buffer.read_idx_.load();
+            if (old_idx >= ring_buffer.proc_idx_.load())
+            {
+                break;
+            }
+            if (ring_buffer.buffer_[old_idx % RingBuffer::BUFFER_LEN].data_mark_.load() != MARK_INVALID)
+            {
+                break;
+            }
+            ring_buffer.read_idx_.compare_exchange_strong(old_idx, old_idx + 1);
+        } while (true);
+    }
+
     inline void EnterProcChannel(Logger& logger, int channel_id)
     {
         Channel& channel = logger.shm_->channels_[channel_id];
@@ -105,6 +156,10 @@ namespace FNLog
             bool empty_tick = true;
             do
             {
+                if (channel.channel_state_ == CHANNEL_STATE_WAITING_FINISH)
+                {
+                    PublishChannel(channel, ring_buffer, true);
+                }
                 long long old_idx = ring_buffer.proc_idx_.load(std::memory_order_acquire);
                 long long next_idx = old_idx + 1;
                 if (old_idx == ring_buffer.write_idx_.load(std::memory_order_acquire))
@@ -120,8 +175,12 @@ namespace FNLog
                     break;
                 }
                 auto& cur_log = ring_buffer.buffer_[old_idx % RingBuffer::BUFFER_LEN];
+                if (cur_log.data_mark_.load(std::memory_order_acquire) != MARK_READY)
+                {
+                    ReleaseChannel(ring_buffer);
+                    continue;
+                }
                 DispatchLog(logger, channel, cur_log);
-                cur_log.data_mark_ = 0;
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED, 1);
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED_BYTES, cur_log.content_len_);
                 flush_count ++;
@@ -142,21 +201,8 @@ namespace FNLog
                         AtomicStoreChannelLog(channel, CHANNEL_LOG_MAX_DELAY_TIME_S, diff);
                     }
                 }
-                do
-                {
-                    //set read index to proc index  
-                    old_idx = ring_buffer.read_idx_.load(std::memory_order_acquire);
-                    next_idx = old_idx + 1;
-                    if (old_idx == ring_buffer.proc_idx_.load(std::memory_order_acquire))
-                    {
-                        break;
-                    }
-                    if (ring_buffer.buffer_[old_idx % RingBuffer::BUFFER_LEN].data_mark_.load(std::memory_order_acquire) != MARK_INVALID)
-                    {
-                        break;
-                    }
-                    ring_buffer.read_idx_.compare_exchange_strong(old_idx, next_idx);
-                } while (true);  
+                cur_log.data_mark_ = MARK_INVALID;
+                ReleaseChannel(ring_buffer);
 
                 //if want the high log security can reduce this threshold or enable shared memory queue.  
                 if (flush_count > FN_LOG_FORCE_FLUSH_QUE)
@@ -252,7 +298,7 @@ namespace FNLog
             }
             
         } while (channel.channel_type_ == CHANNEL_ASYNC 
-            && (channel.channel_state_ == CHANNEL_STATE_RUNNING || ring_buffer.write_idx_ != ring_buffer.read_idx_));
+            && (channel.channel_state_ == CHANNEL_STATE_RUNNING || ring_buffer.hold_idx_ != ring_buffer.proc_idx_));
 
         if (channel.channel_type_ == CHANNEL_ASYNC)
         {
@@ -452,7 +498,14 @@ namespace FNLog
                 {
                     AtomicIncChannelLog(channel, CHANNEL_LOG_HOLD, 1);
                     int hold_idx = (int)(old_idx % RingBuffer::BUFFER_LEN);
-                    ring_buffer.buffer_[hold_idx].data_mark_.store(MARK_HOLD, std::memory_order_release);
+                    int mark = MARK_INVALID;
+                    if (!ring_buffer.buffer_[hold_idx].data_mark_.compare_exchange_strong(mark, MARK_HOLD))
+                    {
+                        //abandoned by stop
+                        ring_buffer.buffer_[hold_idx].data_mark_ = MARK_INVALID;
+                        ReleaseChannel(ring_buffer);
+                        return -11;
+                    }
                     return hold_idx;
                 }
                 continue;
@@ -477,41 +530,34 @@ namespace FNLog
         }
         Channel& channel = logger.shm_->channels_[channel_id];
         RingBuffer& ring_buffer = logger.shm_->ring_buffers_[channel_id];
-        if (channel.channel_state_ != CHANNEL_STATE_RUNNING)
-        {
-            return E_LOGGER_NOT_RUNNING;
-        }
 
         LogData& log = ring_buffer.buffer_[hold_idx];
         log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - 2);
         log.content_[log.content_len_++] = '\n';
         log.content_[log.content_len_] = '\0';
 
-        log.data_mark_ = 2;
-        AtomicIncChannelLog(channel, CHANNEL_LOG_PRIORITY + log.priority_, log.content_len_);
-
-        do
+        //once ready the slot (and the channel settings) no longer belong to this thread.  
+        int priority = log.priority_;
+        int content_len = log.content_len_;
+        int mark = MARK_HOLD;
+        if (!log.data_mark_.compare_exchange_strong(mark, MARK_READY))
         {
-            long long old_idx = ring_buffer.write_idx_.load(std::memory_order_acquire);
-            long long next_idx = old_idx + 1;
-            if (old_idx == ring_buffer.hold_idx_.load(std::memory_order_acquire))
-            {
-                break;
-            }
-            if (ring_buffer.buffer_[old_idx % RingBuffer::BUFFER_LEN].data_mark_.load(std::memory_order_acquire) != 2)
-            {
-                break;
-            }
-            if (ring_buffer.write_idx_.compare_exchange_strong(old_idx, next_idx))
-            {
-                AtomicIncChannelLog(channel, CHANNEL_LOG_PUSH, 1);
-            }
-        } while (channel.channel_state_ == CHANNEL_STATE_RUNNING);
+            //abandoned by stop
+            log.data_mark_ = MARK_INVALID;
+            ReleaseChannel(ring_buffer);
+            return E_LOGGER_NOT_RUNNING;
+        }
+        AtomicIncChannelLog(channel, CHANNEL_LOG_PRIORITY + priority, content_len);
+        PublishChannel(channel, ring_buffer, false);
 
         if (channel.channel_type_ == CHANNEL_SYNC && channel.channel_state_ == CHANNEL_STATE_RUNNING)
         {
             //one thread drains the queue at a time, else the records are out of order between (and in) the devices.
             Logger::ReadGuard rg(logger.read_locks_[channel_id]);
+            if (channel.channel_type_ != CHANNEL_SYNC || channel.channel_state_ != CHANNEL_STATE_RUNNING)
+            {
+                return 0;
+            }
             EnterProcChannel(logger, channel_id); //no affect channel.single_thread_write_
         }
         return 0;
diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 9e50303..78081f1 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -83,6 +83,12 @@ namespace FNLog
             switch (channel.channel_type_)
             {
             case CHANNEL_SYNC:
+                if (channel.channel_state_ == CHANNEL_STATE_RUNNING)
+                {
+                    Logger::ReadGuard rg(logger.read_locks_[channel_id]);
+                    channel.channel_state_ = CHANNEL_STATE_WAITING_FINISH;
+                    EnterProcChannel(logger, channel_id);
+                }
                 channel.channel_state_ = CHANNEL_STATE_NULL;
                 break;
             case CHANNEL_ASYNC:
@@ -147,26 +153,6 @@ namespace FNLog
         return 0;
     }
 
-    inline int CleanChannels(Logger& logger)
-    {
-        for (int channel_id = 0; channel_id < logger.shm_->channel_size_; channel_id++)
-        {
-            RingBuffer& ring_buffer = logger.shm_->ring_buffers_[channel_id];
-
-            while (ring_buffer.read_idx_ != ring_buffer.write_idx_)
-            {
-                ring_buffer.buffer_[ring_buffer.read_idx_ % RingBuffer::BUFFER_LEN].data_mark_ = 0;
-                ring_buffer.read_idx_++;
-            }
-            ring_buffer.read_idx_ = 0;
-            ring_buffer.proc_idx_ = 0;
-            ring_buffer.write_idx_ = 0;
-            ring_buffer.hold_idx_ = 0;
-        }
-        return 0;
-    }
-
-
     inline int StopLogger(Logger& logger)
     {
         if (logger.shm_ == NULL)
@@ -193,7 +179,6 @@ namespace FNLog
         }
         logger.logger_state_ = LOGGER_STATE_CLOSING;
         StopChannels(logger);
-        CleanChannels(logger);
         
         for (auto& writer : logger.file_handles_)
         {
diff --git a/src/include/fn_data.h b/src/include/fn_data.h
index d038b7b..386b093 100644
--- a/src/include/fn_data.h
+++ b/src/include/fn_data.h
@@ -119,7 +119,8 @@ namespace FNLog
     {
         MARK_INVALID,
         MARK_HOLD,
-        MARK_READY
+        MARK_READY,
+        MARK_ABANDON, //a stop does not wait for the record still in progress.
     };
 
     struct LogData
@@ -127,7 +128,7 @@ namespace FNLog
     public:
         static const int LOG_SIZE = FN_LOG_MAX_LOG_SIZE;
     public:
-        std::atomic_int    data_mark_; //0 invalid, 1 hold, 2 ready
+        std::atomic_int    data_mark_; //0 invalid, 1 hold, 2 ready, 3 abandon
         int     channel_id_;
         int     priority_;
         int     category_; 
-- 
2.43.0


From 27285c90450f2af42448119d69ed1d4e673631ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 24/46] fix: failure to create the async thread left the logger
 locked up in state initing

---
 src/include/fn_core.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 78081f1..fe56e96 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -41,7 +41,14 @@ namespace FNLog
                 break;
             case CHANNEL_ASYNC:
             {
-                thd = std::thread(EnterProcChannel, std::ref(logger), channel_id);
+                try
+                {
+                    thd = std::thread(EnterProcChannel, std::ref(logger), channel_id);
+                }
+                catch (const std::system_error& e)
+                {
+                    printf("StartChannels create async log thread has error:%s.\n", e.what());
+                }
                 if (!thd.joinable())
                 {
                     printf("StartChannels %s", "start async log thread has error.\n");
-- 
2.43.0


From 27c06fb8c2a34b45f7d95f5a63836a66996c51f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 25/46] fix: data races between log calls, the writer threads,
 hot update and restart

State, type and device counts are shared by all threads but were plain fields; the start
and hot update also copied over whole channels (counters included) while calls read them.
A virtual device appended by a hot update was never selected.
---
 src/include/fn_channel.h | 10 +++----
 src/include/fn_core.h    | 45 ++++++++++------------------
 src/include/fn_data.h    | 18 ++++++------
 src/include/fn_load.h    | 63 +++++++++++++++++++++++++++++++---------
 src/include/fn_stream.h  |  2 ++
 5 files changed, 81 insertions(+), 57 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index c94c890..651a7a7 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -220,10 +220,8 @@ namespace FNLog
             } while (true);  
 
 
-            if (channel.channel_state_ == CHANNEL_STATE_NULL)
-            {
-                channel.channel_state_ = CHANNEL_STATE_RUNNING;
-            }
+            unsigned int start_state = CHANNEL_STATE_NULL;
+            channel.channel_state_.compare_exchange_strong(start_state, CHANNEL_STATE_RUNNING);
 
             if (flush_count != 0)
             {
@@ -365,11 +363,11 @@ namespace FNLog
 #endif
     inline bool BlockInput(Logger& logger, int channel_id, int priority, int category, long long identify)
     {
-        if (logger.shm_ == NULL || channel_id >= logger.shm_->channel_size_ || channel_id < 0)
+        if (logger.logger_state_ != LOGGER_STATE_RUNNING)
         {
             return true;
         }
-        if (logger.logger_state_ != LOGGER_STATE_RUNNING)
+        if (logger.shm_ == NULL || channel_id >= logger.shm_->channel_size_ || channel_id < 0)
         {
             return true;
         }
diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index fe56e96..33588a9 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -102,10 +102,7 @@ namespace FNLog
             {
                 if (thd.joinable())
                 {
-                    if (channel.channel_state_ == CHANNEL_STATE_RUNNING)
-                    {
-                        channel.channel_state_ = CHANNEL_STATE_WAITING_FINISH;
-                    }
+                    channel.channel_state_ = CHANNEL_STATE_WAITING_FINISH;
                     thd.join();
                 }
                 channel.channel_state_ = CHANNEL_STATE_NULL;
@@ -123,28 +120,23 @@ namespace FNLog
     {
         if (logger.logger_state_ != LOGGER_STATE_UNINIT)
         {
-            printf("StartLogger error. state:<%u> not uninit:<%u>.\n", logger.logger_state_, LOGGER_STATE_UNINIT);
+            printf("StartLogger error. state:<%u> not uninit:<%u>.\n", logger.logger_state_.load(), LOGGER_STATE_UNINIT);
             return E_LOGGER_IN_USE;
         }
+        Logger::StateLockGuard state_guard(logger.state_lock_);
         if (logger.shm_ == NULL)
         {
             printf("StartLogger error. logger not init %p.\n", logger.shm_);
             return E_LOGGER_NOT_INIT;
         }
-        if (logger.shm_->channel_size_ > Logger::MAX_CHANNEL_SIZE || logger.shm_->channel_size_ <= 0)
-        {
-            printf("StartLogger error. logger invalid channel size: %d.\n", logger.shm_->channel_size_);
-            return E_INVALID_CHANNEL_SIZE;
-        }
-        Logger::StateLockGuard state_guard(logger.state_lock_);
         if (logger.logger_state_ != LOGGER_STATE_UNINIT)
         {
-            printf("StartLogger error. state:<%u> not uninit:<%u>.\n", logger.logger_state_, LOGGER_STATE_UNINIT);
+            printf("StartLogger error. state:<%u> not uninit:<%u>.\n", logger.logger_state_.load(), LOGGER_STATE_UNINIT);
             return E_LOGGER_IN_USE;
         }
         if (logger.shm_->channel_size_ > Logger::MAX_CHANNEL_SIZE || logger.shm_->channel_size_ <= 0)
         {
-            printf("StartLogger error. channel size:<%d> invalid.\n", logger.shm_->channel_size_);
+            printf("StartLogger error. channel size:<%d> invalid.\n", logger.shm_->channel_size_.load());
             return E_INVALID_CHANNEL_SIZE;
         }
         logger.logger_state_ = LOGGER_STATE_INITING;
@@ -153,7 +145,7 @@ namespace FNLog
         {
             StopChannels(logger);
             logger.logger_state_ = LOGGER_STATE_UNINIT;
-            printf("StartLogger error. StartChannels failed. channel size:<%d>. \n", logger.shm_->channel_size_);
+            printf("StartLogger error. StartChannels failed. channel size:<%d>. \n", logger.shm_->channel_size_.load());
             return ret;
         }
         logger.logger_state_ = LOGGER_STATE_RUNNING;
@@ -162,28 +154,23 @@ namespace FNLog
 
     inline int StopLogger(Logger& logger)
     {
-        if (logger.shm_ == NULL)
-        {
-            printf("StopLogger error. logger not init %p.\n", (void*)logger.shm_);
-            return E_LOGGER_NOT_INIT;
-        }
-        if (logger.shm_->channel_size_ > Logger::MAX_CHANNEL_SIZE || logger.shm_->channel_size_ <= 0)
-        {
-            printf("StopLogger error. channel size:<%d> invalid.\n", logger.shm_->channel_size_);
-            return E_INVALID_CHANNEL_SIZE;
-        }
         if (logger.logger_state_ != LOGGER_STATE_RUNNING)
         {
-            printf("StopLogger logger error. state:<%u> not running:<%u>.\n", logger.logger_state_, LOGGER_STATE_RUNNING);
+            printf("StopLogger logger error. state:<%u> not running:<%u>.\n", logger.logger_state_.load(), LOGGER_STATE_RUNNING);
             return E_LOGGER_NOT_RUNNING;
         }
         Logger::StateLockGuard state_guard(logger.state_lock_);
         
         if (logger.logger_state_ != LOGGER_STATE_RUNNING)
         {
-            printf("StopLogger logger error. state:<%u> not running:<%u>.\n", logger.logger_state_, LOGGER_STATE_RUNNING);
+            printf("StopLogger logger error. state:<%u> not running:<%u>.\n", logger.logger_state_.load(), LOGGER_STATE_RUNNING);
             return E_LOGGER_NOT_RUNNING;
         }
+        if (logger.shm_->channel_size_ > Logger::MAX_CHANNEL_SIZE || logger.shm_->channel_size_ <= 0)
+        {
+            printf("StopLogger error. channel size:<%d> invalid.\n", logger.shm_->channel_size_.load());
+            return E_INVALID_CHANNEL_SIZE;
+        }
         logger.logger_state_ = LOGGER_STATE_CLOSING;
         StopChannels(logger);
         
@@ -210,13 +197,13 @@ namespace FNLog
     {
         if (logger.logger_state_ != LOGGER_STATE_UNINIT)
         {
-            printf("ParseAndStartLogger error. state:<%u> not uninit:<%u> by fast try.\n", logger.logger_state_, LOGGER_STATE_UNINIT);
+            printf("ParseAndStartLogger error. state:<%u> not uninit:<%u> by fast try.\n", logger.logger_state_.load(), LOGGER_STATE_UNINIT);
             return E_LOGGER_IN_USE;
         }
         Logger::StateLockGuard state_guard(logger.state_lock_);
         if (logger.logger_state_ != LOGGER_STATE_UNINIT)
         {
-            printf("ParseAndStartLogger error. state:<%u> not uninit:<%u> in locked check.\n", logger.logger_state_, LOGGER_STATE_UNINIT);
+            printf("ParseAndStartLogger error. state:<%u> not uninit:<%u> in locked check.\n", logger.logger_state_.load(), LOGGER_STATE_UNINIT);
             return E_LOGGER_IN_USE;
         }
         int ret = InitFromYMAL(logger, config_content, "");
@@ -238,7 +225,7 @@ namespace FNLog
     {
         if (logger.logger_state_ != LOGGER_STATE_UNINIT)
         {
-            printf("LoadAndStartLogger error. state:<%u> not uninit:<%u>.\n", logger.logger_state_, LOGGER_STATE_UNINIT);
+            printf("LoadAndStartLogger error. state:<%u> not uninit:<%u>.\n", logger.logger_state_.load(), LOGGER_STATE_UNINIT);
             return E_LOGGER_IN_USE;
         }
         Logger::StateLockGuard state_guard(logger.state_lock_);
diff --git a/src/include/fn_data.h b/src/include/fn_data.h
index 386b093..5c442bc 100644
--- a/src/include/fn_data.h
+++ b/src/include/fn_data.h
@@ -222,8 +222,8 @@ namespace FNLog
         
     public:
         int device_id_;
-        unsigned int out_type_;
-        unsigned int in_type_;
+        std::atomic_uint out_type_;
+        std::atomic_uint in_type_;
         char out_file_[MAX_LOGGER_NAME_LEN];
         char out_path_[MAX_PATH_LEN];
         ConfigFields config_fields_;
@@ -314,10 +314,10 @@ namespace FNLog
     public:
         
         int  channel_id_;
-        int  channel_type_;
-        int virtual_device_id_;
-        int device_size_;
-        unsigned int channel_state_;
+        std::atomic_int channel_type_;
+        std::atomic_int virtual_device_id_;
+        std::atomic_int device_size_;
+        std::atomic_uint channel_state_;
         ConfigFields config_fields_;
         Device devices_[MAX_DEVICE_SIZE];
 
@@ -347,7 +347,7 @@ namespace FNLog
         using RingBuffers = std::array<RingBuffer, MAX_CHANNEL_SIZE>;
         int shm_id_;
         int shm_size_; 
-        int channel_size_;
+        std::atomic_int channel_size_;
         Channels channels_;
         RingBuffers ring_buffers_;
     };
@@ -413,9 +413,9 @@ namespace FNLog
         static const int MAX_FREQ_LIMIT_SIZE = FN_LOG_FREQ_LIMIT_SIZE;
         Logger();
         ~Logger();
-        bool hot_update_;
+        std::atomic_bool hot_update_;
         std::string yaml_path_;
-        unsigned int logger_state_;
+        std::atomic_uint logger_state_;
         StateLock state_lock_;
         char desc_[MAX_LOGGER_DESC_LEN];
         int desc_len_;
diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index fb19359..d9b3911 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -153,6 +153,44 @@ namespace FNLog
     }
 
 
+    //log calls may be still reading the channel (and its log counters go on): copy field by field
+    inline void CopyDeviceConfig(Device& dst, const Device& src)
+    {
+        for (int field_id = 0; field_id < DEVICE_CFG_MAX_ID; field_id++)
+        {
+            dst.config_fields_[field_id] = (long long)src.config_fields_[field_id];
+        }
+    }
+
+    inline void CopyDevice(Device& dst, const Device& src)
+    {
+        dst.device_id_ = src.device_id_;
+        dst.out_type_ = src.out_type_.load();
+        dst.in_type_ = src.in_type_.load();
+        memcpy(dst.out_file_, src.out_file_, sizeof(dst.out_file_));
+        memcpy(dst.out_path_, src.out_path_, sizeof(dst.out_path_));
+        CopyDeviceConfig(dst, src);
+    }
+
+    inline void CopyChannelConfig(Channel& dst, const Channel& src)
+    {
+        dst.channel_id_ = src.channel_id_;
+        dst.channel_type_ = src.channel_type_.load();
+        dst.virtual_device_id_ = src.virtual_device_id_.load();
+        dst.channel_state_ = src.channel_state_.load();
+        for (int field_id = 0; field_id < CHANNEL_CFG_MAX_ID; field_id++)
+        {
+            dst.config_fields_[field_id] = (long long)src.config_fields_[field_id];
+        }
+        for (int device_id = 0; device_id < Channel::MAX_DEVICE_SIZE; device_id++)
+        {
+            CopyDevice(dst.devices_[device_id], src.devices_[device_id]);
+        }
+        dst.device_size_ = src.device_size_.load();
+        dst.yaml_mtime_ = src.yaml_mtime_;
+        dst.last_hot_check_ = src.last_hot_check_;
+    }
+
     inline int InitFromYMAL(Logger& logger, std::string text, const std::string& path)
     {
         if (logger.logger_state_ != LOGGER_STATE_UNINIT)
@@ -198,12 +236,12 @@ namespace FNLog
         }
 
 
-        if (ls->name_len_ > 0)
+        if (ls->name_len_ > 0 && strcmp(logger.name_, ls->name_) != 0)
         {
             memcpy(logger.name_, ls->name_, ls->name_len_+1);
             logger.name_len_ = ls->name_len_;
         }
-        if (ls->desc_len_ > 0)
+        if (ls->desc_len_ > 0 && strcmp(logger.desc_, ls->desc_) != 0)
         {
             memcpy(logger.desc_, ls->desc_, ls->desc_len_+1);
             logger.desc_len_ = ls->desc_len_;
@@ -222,19 +260,14 @@ namespace FNLog
             }
         }
         logger.shm_->channel_size_ = ls->channel_size_;
-        for (int i = 0; i < ls->channel_size_; i++)
+        for (int i = 0; i < Logger::MAX_CHANNEL_SIZE; i++)
         {
-            memcpy(&ls->channels_[i].channel_log_fields_, &logger.shm_->channels_[i].channel_log_fields_,
-                sizeof(ls->channels_[i].channel_log_fields_));
-
-            memcpy(&ls->channels_[i].device_log_fields_, &logger.shm_->channels_[i].device_log_fields_,
-                sizeof(ls->channels_[i].device_log_fields_));
+            CopyChannelConfig(logger.shm_->channels_[i], ls->channels_[i]);
         }
-        memcpy(&logger.shm_->channels_, &ls->channels_, sizeof(logger.shm_->channels_));
 
         if (logger.shm_->channel_size_ > Logger::MAX_CHANNEL_SIZE || logger.shm_->channel_size_ <= 0)
         {
-            printf("InitFromYMAL channel size:%d out channel max%d. \n", logger.shm_->channel_size_, Logger::MAX_CHANNEL_SIZE);
+            printf("InitFromYMAL channel size:%d out channel max%d. \n", logger.shm_->channel_size_.load(), Logger::MAX_CHANNEL_SIZE);
             return E_INVALID_CHANNEL_SIZE;
         }
         return 0;
@@ -370,15 +403,19 @@ namespace FNLog
                 {
                     return E_VERSION_MISMATCH;
                 }
-                memcpy(&dst_dvc.config_fields_, &src_dvc.config_fields_, sizeof(dst_dvc.config_fields_));
+                CopyDeviceConfig(dst_dvc, src_dvc);
                 continue;
             }
             if (dst_chl.device_size_ != device_id)
             {
                 return E_VERSION_MISMATCH;
             }
-            memcpy(&dst_chl.devices_[dst_chl.device_size_++], &src_dvc, sizeof(src_dvc));
-            
+            CopyDevice(dst_chl.devices_[device_id], src_dvc);
+            dst_chl.device_size_ = device_id + 1;
+            if (src_dvc.out_type_ == DEVICE_OUT_VIRTUAL)
+            {
+                dst_chl.virtual_device_id_ = device_id;
+            }
         }
         AtomicIncChannelLog(dst_chl, CHANNEL_LOG_HOTUPDATE_CHANGE, 1);
         return 0;
diff --git a/src/include/fn_stream.h b/src/include/fn_stream.h
index 8816aae..28cc44b 100644
--- a/src/include/fn_stream.h
+++ b/src/include/fn_stream.h
@@ -347,6 +347,8 @@ namespace FNLog
         LogStream & operator << (int val) { return (*this << (long long)val); }
         LogStream & operator << (unsigned int val) { return (*this << (unsigned long long)val); }
         LogStream & operator << (long val) { return (*this << (long long)val); }
+        template<class _Ty>
+        LogStream & operator << (const std::atomic<_Ty>& val) { return (*this << val.load()); }
         LogStream & operator << (unsigned long val) { return (*this << (unsigned long long)val); }
         
         LogStream& operator << (long long integer){ return write_longlong<0>(integer);}
-- 
2.43.0


From ab142151b713292da981cdc081bc5c4f673b742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:09 +0000
Subject: [PATCH 26/46] fix: shm recovery marked complete records as broken and
 showed old text for empty slots

---
 src/include/fn_channel.h |  1 +
 src/include/fn_load.h    | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 651a7a7..d3f870c 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -497,6 +497,7 @@ namespace FNLog
                     AtomicIncChannelLog(channel, CHANNEL_LOG_HOLD, 1);
                     int hold_idx = (int)(old_idx % RingBuffer::BUFFER_LEN);
                     int mark = MARK_INVALID;
+                    ring_buffer.buffer_[hold_idx].content_len_ = 0;
                     if (!ring_buffer.buffer_[hold_idx].data_mark_.compare_exchange_strong(mark, MARK_HOLD))
                     {
                         //abandoned by stop
diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index d9b3911..4c87f76 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -108,9 +108,20 @@ namespace FNLog
             while (shm->ring_buffers_[i].write_idx_.load() != shm->ring_buffers_[i].hold_idx_.load())
             {
                 auto& log = shm->ring_buffers_[i].buffer_[shm->ring_buffers_[i].write_idx_ % RingBuffer::BUFFER_LEN];
-                log.data_mark_ = 2;
+                int mark = log.data_mark_;
+                if (mark == MARK_READY)
+                {
+                    //complete, the writer of a slot before it was not.
+                    shm->ring_buffers_[i].write_idx_++;
+                    continue;
+                }
+                log.data_mark_ = MARK_READY;
                 log.priority_ = PRIORITY_FATAL;
                 std::string core_desc = "!!!core recover!!!";
+                if (mark == MARK_INVALID)
+                {
+                    log.content_len_ = 0; //text of an old record
+                }
                 log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - (int)core_desc.length() - 2);
                 memcpy(&log.content_[log.content_len_], core_desc.c_str(), core_desc.length());
 
@@ -120,6 +131,11 @@ namespace FNLog
 
                 shm->ring_buffers_[i].write_idx_++;
             }
+            for (long long idx = shm->ring_buffers_[i].read_idx_; idx < shm->ring_buffers_[i].write_idx_; idx++)
+            {
+                int mark = MARK_ABANDON;
+                shm->ring_buffers_[i].buffer_[idx % RingBuffer::BUFFER_LEN].data_mark_.compare_exchange_strong(mark, MARK_INVALID);
+            }
             shm->ring_buffers_[i].proc_idx_ = shm->ring_buffers_[i].read_idx_.load();
             if (shm->ring_buffers_[i].read_idx_ != 0 || shm->ring_buffers_[i].write_idx_ != 0)
             {
-- 
2.43.0


From 49956442ae5dd2c5eafc4a60949587f191f99049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 27/46] fix: UDP devices dropped everything for two seconds
 after a restart

---
 src/include/fn_core.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 33588a9..cd73d1f 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -187,6 +187,7 @@ namespace FNLog
             {
                 writer.close();
             }
+            writer.open_ts_ = 0;
         }
         logger.logger_state_ = LOGGER_STATE_UNINIT;
         return 0;
-- 
2.43.0


From cdb3635c4a0a8e66f343d6dff417a453540f51a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 28/46] fix: decimal masks with bit 63 set were saturated to
 the 63 lower bits

---
 src/include/fn_parse.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 2c4d9cb..b630f27 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1209,10 +1209,10 @@ namespace FNLog
                 device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_CATEGORY_WMASK:
-                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = (long long)strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_CATEGORY_BMASK:
-                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = ~(long long)strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY:
                 device.config_fields_[DEVICE_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
@@ -1227,10 +1227,10 @@ namespace FNLog
                 device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_IDENTIFY_WMASK:
-                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = (long long)strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY_BMASK:
-                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~(long long)strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_LIMIT_SIZE:
                 //clamp: the size in bytes must not overflow
@@ -1352,10 +1352,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_CATEGORY_WMASK:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = (long long)strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_CATEGORY_BMASK:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~(long long)strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY:
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
@@ -1370,10 +1370,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_IDENTIFY_WMASK:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = (long long)strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY_BMASK:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ~atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ~(long long)strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
 
             case RK_DEVICE:
-- 
2.43.0


From 9a92a588cea3fd8694b108cce76c11adc4a4516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:47 +0000
Subject: [PATCH 29/46] fix: the documented 'sync: SYNC' meant async

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index b630f27..c928600 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -540,7 +540,7 @@ namespace FNLog
     }
     inline ChannelType ParseChannelType(const char* begin, const char* end)
     {
-        if (end <= begin || *begin != 's')
+        if (end <= begin || (*begin != 's' && *begin != 'S'))
         {
             return CHANNEL_ASYNC;
         }
-- 
2.43.0


From 304f0496ae95f4e85bd70419f90dbd2e3a651011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:47 +0000
Subject: [PATCH 30/46] fix: the documented 'out_type: null' was rejected

---
 src/include/fn_parse.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index c928600..74bb5f7 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1182,7 +1182,8 @@ namespace FNLog
                 break;
             case RK_OUT_TYPE:
                 device.out_type_ = ParseOutType(ls.line_.val_begin_, ls.line_.val_end_);
-                if (device.out_type_ == DEVICE_OUT_NULL)
+                if (device.out_type_ == DEVICE_OUT_NULL
+                    && (ls.line_.val_end_ <= ls.line_.val_begin_ || (*ls.line_.val_begin_ != 'n' && *ls.line_.val_begin_ != 'N')))
                 {
                     //logic error:
                     ls.current_ = current;
-- 
2.43.0


From d4a02e20eb353bc901ae0e0d825fe86c193c392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:47 +0000
Subject: [PATCH 31/46] fix: an incompatible file without hot_update switched
 hot updates off

---
 src/include/fn_load.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 4c87f76..f671ea5 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -384,7 +384,6 @@ namespace FNLog
             return E_DISABLE_HOTUPDATE;
         }
         dst_chl.yaml_mtime_ = file_stat.st_mtime;
-        logger.hot_update_ = ls->hot_update_;
         
         static_assert(std::is_same<decltype(logger.shm_->channels_), decltype(ls->channels_)>::value, "");
         //static_assert(std::is_trivial<decltype(logger.shm_->channels_)>::value, "");
@@ -398,6 +397,7 @@ namespace FNLog
         {
             return E_VERSION_MISMATCH;
         }
+        logger.hot_update_ = ls->hot_update_;
         for (int field_id = 0; field_id < CHANNEL_CFG_MAX_ID; field_id++)
         {
             //this is multi-thread safe op. 
-- 
2.43.0


From ab996a8ed840cbee9c1e509998c10289e7fa66eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:28 +0000
Subject: [PATCH 32/46] fix: the file reopen back-off outlived a stop

---
 src/include/fn_core.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index cd73d1f..83b5299 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -189,6 +189,15 @@ namespace FNLog
             }
             writer.open_ts_ = 0;
         }
+        // a failed open holds back a file device of this session only, not of the next start.
+        for (int channel_id = 0; channel_id < logger.shm_->channel_size_; channel_id++)
+        {
+            Channel& channel = logger.shm_->channels_[channel_id];
+            for (int device_id = 0; device_id < channel.device_size_; device_id++)
+            {
+                AtomicStoreDeviceLog(channel, device_id, DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP, 0);
+            }
+        }
         logger.logger_state_ = LOGGER_STATE_UNINIT;
         return 0;
     }
-- 
2.43.0


From ffa8e1679e7c6629a7f38b1333bfc081392164c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:21 +0000
Subject: [PATCH 33/46] fix: append mode ignored the size limit when it
 reopened a file

---
 src/include/fn_out_file_device.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index 268cdb2..939cd2f 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -194,18 +194,16 @@ namespace FNLog
         (void)logger;
 
         bool close_file = false;
-        bool limit_out = false;
 
         
 
         do
         {
             //rollback only limit size && rollback > 0 
-            if (AtomicLoadC(device, DEVICE_CFG_FILE_LIMIT_SIZE) > 0 && AtomicLoadC(device, DEVICE_CFG_FILE_ROLLBACK) > 0
+            if (writer.is_open() && AtomicLoadC(device, DEVICE_CFG_FILE_LIMIT_SIZE) > 0 && AtomicLoadC(device, DEVICE_CFG_FILE_ROLLBACK) > 0
                 && AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_SIZE) + log.content_len_ > AtomicLoadC(device, DEVICE_CFG_FILE_LIMIT_SIZE))
             {
                 close_file = true;
-                limit_out = true;
                 break;
             }
 
@@ -289,6 +287,14 @@ namespace FNLog
         if (AtomicLoadC(device, DEVICE_CFG_FILE_ROLLBACK) > 0 || AtomicLoadC(device, DEVICE_CFG_FILE_LIMIT_SIZE) > 0)
         {
             bool stuff_up = (bool)AtomicLoadC(device, DEVICE_CFG_FILE_STUFF_UP);
+            bool limit_out = false;
+            if (stuff_up && AtomicLoadC(device, DEVICE_CFG_FILE_LIMIT_SIZE) > 0 && AtomicLoadC(device, DEVICE_CFG_FILE_ROLLBACK) > 0)
+            {
+                //the file to continue may have no room for this record.
+                struct stat left_stat;
+                limit_out = stat(path.c_str(), &left_stat) == 0 && left_stat.st_size > 0
+                    && (long long)left_stat.st_size + log.content_len_ > AtomicLoadC(device, DEVICE_CFG_FILE_LIMIT_SIZE);
+            }
             if (!stuff_up || limit_out)
             {
                 //when no rollback but has limit size. need try rollback once.
-- 
2.43.0


From 43f6568e4ce3b82b1395ddd5c24a6a5a6bef7775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:21 +0000
Subject: [PATCH 34/46] fix: two channels creating the same directory, one of
 them failed

---
 src/include/fn_file.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index 0d896d5..a1a47bc 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -270,7 +270,8 @@ namespace FNLog
 #else
                 ret = (mkdir(cur.c_str(), S_IRWXU | S_IRWXG | S_IRWXO) == 0);
 #endif
-                if (!ret)
+                //another channel may have created it meanwhile
+                if (!ret && !is_dir(cur))
                 {
                     return false;
                 }
-- 
2.43.0


From 93f4d7bdf185573dde7136120a6a031d6cb9e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:01 +0000
Subject: [PATCH 35/46] fix: a failing rename of a backup lost the next one

---
 src/include/fn_file.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index a1a47bc..66a7c87 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -376,7 +376,8 @@ namespace FNLog
         }
         if (depth > max_depth)
         {
-            return remove_file(path);
+            remove_file(path);
+            return true;
         }
         std::string next_path = path;
         size_t pos = path.find_last_not_of("0123456789");
@@ -386,10 +387,12 @@ namespace FNLog
         }
         next_path += ".";
         next_path += std::to_string(depth);
-        rollback(next_path, depth + 1, max_depth);
-        int ret = ::rename(path.c_str(), next_path.c_str());
-        (void)ret;
-        return true;
+        //a backup which could not make room must not be overwritten.
+        if (!rollback(next_path, depth + 1, max_depth))
+        {
+            return false;
+        }
+        return ::rename(path.c_str(), next_path.c_str()) == 0;
     }
 
     inline int short_path(const char* path, int len)
-- 
2.43.0


From dc2d979cf9cd543f81047ed921b417b568acf537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:54 +0000
Subject: [PATCH 36/46] fix: daily rolling missed clock changes shortly after
 midnight

---
 src/include/fn_out_file_device.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index 939cd2f..a4bc61c 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -210,8 +210,9 @@ namespace FNLog
             //daily rolling
             if (AtomicLoadC(device, DEVICE_CFG_FILE_ROLLDAILY))
             {
-                //a day with a clock change has not 24 hours, so near its end (or when time goes back) compare the dates. 
+                //a day with a clock change has not 24 hours, so near its ends (or when time goes back) compare the dates. 
                 if (log.timestamp_ < AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_TIMESTAMP)
+                    || log.timestamp_ < AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_DAY) + 2 * 3600
                     || log.timestamp_ >= AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_DAY) + 22 * 3600)
                 {
                     tm create = FileHandler::time_to_tm((time_t)AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_TIMESTAMP));
@@ -258,6 +259,9 @@ namespace FNLog
             day.tm_min = 0;
             day.tm_sec = 0;
             create_hour = mktime(&day);
+            day = t; //mktime moves a full hour that a clock change left out, possibly to another day
+            day.tm_min = 0;
+            day.tm_sec = 0;
             day.tm_hour = 0;
             create_day = mktime(&day);
         }
-- 
2.43.0


From ee7ab078a50870ae7481299b6fbcd9d9f243faa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:06 +0000
Subject: [PATCH 37/46] fix: a configuration without any channel wiped the
 settings

---
 src/include/fn_load.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index f671ea5..a3e0757 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -244,6 +244,13 @@ namespace FNLog
             return ret;
         }
 
+        //a text of blanks and comments only is no parse error 
+        if (ls->channel_size_ > Logger::MAX_CHANNEL_SIZE || ls->channel_size_ <= 0)
+        {
+            printf("InitFromYMAL channel size:%d out channel max%d. \n", ls->channel_size_, Logger::MAX_CHANNEL_SIZE);
+            return E_INVALID_CHANNEL_SIZE;
+        }
+
         Logger::StateLockGuard state_guard(logger.state_lock_);
         if (logger.logger_state_ != LOGGER_STATE_UNINIT)
         {
@@ -280,12 +287,6 @@ namespace FNLog
         {
             CopyChannelConfig(logger.shm_->channels_[i], ls->channels_[i]);
         }
-
-        if (logger.shm_->channel_size_ > Logger::MAX_CHANNEL_SIZE || logger.shm_->channel_size_ <= 0)
-        {
-            printf("InitFromYMAL channel size:%d out channel max%d. \n", logger.shm_->channel_size_.load(), Logger::MAX_CHANNEL_SIZE);
-            return E_INVALID_CHANNEL_SIZE;
-        }
         return 0;
     }
 
@@ -393,7 +394,7 @@ namespace FNLog
 
 
         Channel& src_chl = ls->channels_[channel_id];
-        if (dst_chl.channel_id_ != src_chl.channel_id_ || src_chl.channel_id_ != channel_id)
+        if (channel_id >= ls->channel_size_ || dst_chl.channel_id_ != src_chl.channel_id_ || src_chl.channel_id_ != channel_id)
         {
             return E_VERSION_MISMATCH;
         }
-- 
2.43.0


From ba0358d6c885c87e5d1b9d4e66ba3cbc515eb85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 38/46] fix: a log call could become a second log thread after
 a restart with another channel type

---
 src/include/fn_load.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index a3e0757..a477ce0 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -285,6 +285,8 @@ namespace FNLog
         logger.shm_->channel_size_ = ls->channel_size_;
         for (int i = 0; i < Logger::MAX_CHANNEL_SIZE; i++)
         {
+            //a log call of the last session may be just about to drain the channel: it relies on the channel type.
+            Logger::ReadGuard rg(logger.read_locks_[i]);
             CopyChannelConfig(logger.shm_->channels_[i], ls->channels_[i]);
         }
         return 0;
-- 
2.43.0


From 3e9fdf8c5800977c7b0f9e65ccc42fdd420d30f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:18 +0000
Subject: [PATCH 39/46] fix: shared memory left half-created by a crash was
 refused for ever

---
 src/include/fn_load.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index a477ce0..de81f6e 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -69,8 +69,8 @@ namespace FNLog
             }
             shm = (SHMLogger*)addr;
             ResetSHMLogger(*shm);
-            shm->shm_size_ = sizeof(SHMLogger);
             shm->shm_id_ = idx;
+            shm->shm_size_ = sizeof(SHMLogger);
         }
         else
         {
@@ -81,6 +81,14 @@ namespace FNLog
                 return E_SHMAT_ERROR;
             }
             shm = (SHMLogger*)addr;
+            struct shmid_ds shm_stat;
+            if (shm->shm_size_ == 0 && shmctl(idx, IPC_STAT, &shm_stat) == 0 && shm_stat.shm_segsz == sizeof(SHMLogger))
+            {
+                //the process died between creating and initializing it.
+                ResetSHMLogger(*shm);
+                shm->shm_id_ = idx;
+                shm->shm_size_ = sizeof(SHMLogger);
+            }
         }
 
         if (shm->shm_size_ != sizeof(SHMLogger) || shm->shm_id_ != idx)
-- 
2.43.0


From c085ae2817d148ff42e7e621d08d77fface3d25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:18 +0000
Subject: [PATCH 40/46] fix: a crash during recovery could pass a half-written
 record off as complete

---
 src/include/fn_load.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index de81f6e..5232d1d 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -123,19 +123,23 @@ namespace FNLog
                     shm->ring_buffers_[i].write_idx_++;
                     continue;
                 }
-                log.data_mark_ = MARK_READY;
                 log.priority_ = PRIORITY_FATAL;
                 std::string core_desc = "!!!core recover!!!";
                 if (mark == MARK_INVALID)
                 {
                     log.content_len_ = 0; //text of an old record
                 }
+                if (log.content_len_ > 0 && log.content_[log.content_len_ - 1] == '\n')
+                {
+                    log.content_len_--; //the mark belongs to the line
+                }
                 log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - (int)core_desc.length() - 2);
                 memcpy(&log.content_[log.content_len_], core_desc.c_str(), core_desc.length());
 
                 log.content_len_ += core_desc.length();
                 log.content_[log.content_len_++] = '\n';
                 log.content_[log.content_len_] = '\0';
+                log.data_mark_ = MARK_READY; //last, the process may die here too
 
                 shm->ring_buffers_[i].write_idx_++;
             }
-- 
2.43.0


From d617ab76a7db8f78c6444da96eab14042058f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:18 +0000
Subject: [PATCH 41/46] fix: a start failed if the recovered queue took longer
 than a second to write

---
 src/include/fn_channel.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index d3f870c..8054cf3 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -154,6 +154,9 @@ namespace FNLog
         {
             int flush_count = 0;
             bool empty_tick = true;
+            //the start waits for it, and a queue left in the shared memory may take longer than that.  
+            unsigned int start_state = CHANNEL_STATE_NULL;
+            channel.channel_state_.compare_exchange_strong(start_state, CHANNEL_STATE_RUNNING);
             do
             {
                 if (channel.channel_state_ == CHANNEL_STATE_WAITING_FINISH)
@@ -220,9 +223,6 @@ namespace FNLog
             } while (true);  
 
 
-            unsigned int start_state = CHANNEL_STATE_NULL;
-            channel.channel_state_.compare_exchange_strong(start_state, CHANNEL_STATE_RUNNING);
-
             if (flush_count != 0)
             {
                 for (int i = 0; i < channel.device_size_; i++)
-- 
2.43.0


From 2a21b98b1946a5de8084933c8f708c3674e00035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:18 +0000
Subject: [PATCH 42/46] fix: synchronous channels left the recovered queue
 unwritten, a full one blocked them

---
 src/include/fn_core.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 83b5299..77899b9 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -38,6 +38,12 @@ namespace FNLog
             {
             case CHANNEL_SYNC:
                 channel.channel_state_ = CHANNEL_STATE_RUNNING;
+                if (logger.shm_->ring_buffers_[channel_id].read_idx_ != logger.shm_->ring_buffers_[channel_id].hold_idx_)
+                {
+                    //left in the shared memory. a full queue would block the log calls, which drain it.  
+                    Logger::ReadGuard rg(logger.read_locks_[channel_id]);
+                    EnterProcChannel(logger, channel_id);
+                }
                 break;
             case CHANNEL_ASYNC:
             {
-- 
2.43.0


From 30b902f377942896f099b7f49bc624957913cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:11 +0000
Subject: [PATCH 43/46] fix: host names resolved for two loggers at the same
 time could be mixed up

gethostbyname returns storage shared by all threads, so a logger loading (or
hot-updating) its configuration could take over the address another logger
had just resolved. Use getaddrinfo.
---
 src/include/fn_parse.h | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 74bb5f7..b499ad1 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -641,23 +641,20 @@ namespace FNLog
             }
             if (parse_dn)
             {
-                struct hostent* rhost = gethostbyname(dn.c_str());
-                if (rhost == nullptr)
+                //not gethostbyname: its result is shared by all threads, other loggers can resolve at the same time   
+                struct addrinfo* res = nullptr;
+                struct addrinfo hints;
+                memset(&hints, 0, sizeof(hints));
+                hints.ai_family = AF_INET;
+                hints.ai_socktype = SOCK_DGRAM;
+                if (getaddrinfo(dn.c_str(), nullptr, &hints, &res) != 0 || res == nullptr)
                 {
                     return std::make_pair(0, end);
                 }
-                if (rhost->h_addrtype == AF_INET)
-                {
-                    int i = 0;
-                    struct in_addr addr;
-                    while (rhost->h_addr_list[i] != 0) 
-                    {
-                        memcpy(&addr, rhost->h_addr_list[i++], sizeof(addr));
-                        return std::make_pair((long long)inet_addr(inet_ntoa(addr)), ip_end);
-                        //printf("%s", inet_ntoa(addr));
-                    }
-                }
-                
+                struct sockaddr_in addr;
+                memcpy(&addr, res->ai_addr, sizeof(addr));
+                freeaddrinfo(res);
+                return std::make_pair((long long)addr.sin_addr.s_addr, ip_end);
             }
             return std::make_pair(0, end);
         }
-- 
2.43.0


From c06acd3e9ecb64b6cc3cc766724eb389857ef323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:49 +0000
Subject: [PATCH 44/46] fix: a failed start closes the sockets and files its
 started channels had opened

---
 src/include/fn_core.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 77899b9..a63fa25 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -150,6 +150,19 @@ namespace FNLog
         if (ret != 0)
         {
             StopChannels(logger);
+            //the channels started before the failed one may have opened them.
+            for (auto& writer : logger.file_handles_)
+            {
+                writer.close();
+            }
+            for (auto& writer : logger.udp_handles_)
+            {
+                if (writer.is_open())
+                {
+                    writer.close();
+                }
+                writer.open_ts_ = 0;
+            }
             logger.logger_state_ = LOGGER_STATE_UNINIT;
             printf("StartLogger error. StartChannels failed. channel size:<%d>. \n", logger.shm_->channel_size_.load());
             return ret;
-- 
2.43.0


From 61ead2e2c443a1067efd4ccf68ad348652fcd6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:42 +0000
Subject: [PATCH 45/46] fix: a start that refuses a shared memory segment
 detaches it again

---
 src/include/fn_load.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 5232d1d..9f9ca84 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -96,12 +96,14 @@ namespace FNLog
             printf("shm version error. key:<0x%llx>, old id:<%d>, new id:<%d>, old size:<%d> new size:<%d>. "
                 "can use 'ipcs -m', 'ipcrm -m' to view and clear.\n",
                 logger.shm_key_, shm->shm_id_, idx, shm->shm_size_, (int)sizeof(SHMLogger));
+            shmdt(shm);
             return E_SHM_VERSION_WRONG;
         }
         for (int i = 0; i < shm->channel_size_; i++)
         {
             if (i >= SHMLogger::MAX_CHANNEL_SIZE)
             {
+                shmdt(shm);
                 return E_SHM_VERSION_WRONG;
             }
 
@@ -110,6 +112,7 @@ namespace FNLog
                 || shm->ring_buffers_[i].hold_idx_ < shm->ring_buffers_[i].write_idx_
                 || shm->ring_buffers_[i].hold_idx_ - shm->ring_buffers_[i].read_idx_ >= RingBuffer::BUFFER_LEN)
             {
+                shmdt(shm);
                 return E_SHM_VERSION_WRONG;
             }
 
-- 
2.43.0


From 4fb62ab3c6cf0c956cd0147e62274def8a196e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:28 +0000
Subject: [PATCH 46/46] fix: a second change of the config file within a second
 was never applied

Hot update compared the modification time in whole seconds: a file changed
twice within a second (written in two steps, or right after the start) could
stay unnoticed for ever. Compare it with the part below a second.
---
 src/include/fn_load.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 9f9ca84..8f0d657 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -307,6 +307,18 @@ namespace FNLog
         return 0;
     }
 
+    //with the part below a second where there is one: two changes within a second are two changes.
+    inline time_t ConfigModifyTime(const struct stat& file_stat)
+    {
+#if defined(__linux__)
+        return (time_t)(file_stat.st_mtim.tv_sec * 1000000000LL + file_stat.st_mtim.tv_nsec);
+#elif defined(__APPLE__)
+        return (time_t)(file_stat.st_mtimespec.tv_sec * 1000000000LL + file_stat.st_mtimespec.tv_nsec);
+#else
+        return file_stat.st_mtime;
+#endif
+    }
+
     inline int InitFromYMALFile(Logger& logger, const std::string& path)
     {
         std::unique_ptr<LexState> ls(new LexState);
@@ -332,7 +344,7 @@ namespace FNLog
 
         for (int i = 0; i < logger.shm_->channel_size_; i++)
         {
-            logger.shm_->channels_[i].yaml_mtime_ = file_stat.st_mtime;
+            logger.shm_->channels_[i].yaml_mtime_ = ConfigModifyTime(file_stat);
         }
         return 0;
     }
@@ -367,7 +379,7 @@ namespace FNLog
         {
             return E_INVALID_CONFIG_PATH;
         }
-        if (file_stat.st_mtime == dst_chl.yaml_mtime_)
+        if (ConfigModifyTime(file_stat) == dst_chl.yaml_mtime_)
         {
             return E_CONFIG_NO_CHANGE;
         }
@@ -401,7 +413,7 @@ namespace FNLog
         {
             return E_DISABLE_HOTUPDATE;
         }
-        dst_chl.yaml_mtime_ = file_stat.st_mtime;
+        dst_chl.yaml_mtime_ = ConfigModifyTime(file_stat);
         
         static_assert(std::is_same<decltype(logger.shm_->channels_), decltype(ls->channels_)>::value, "");
         //static_assert(std::is_trivial<decltype(logger.shm_->channels_)>::value, "");
-- 
2.43.0


// libstdc++ includes this under -fsanitize=thread; the annotations are not needed here.
#pragma once
#define __tsan_mutex_destroy(...) ((void)0)
#define __tsan_mutex_pre_lock(...) ((void)0)
#define __tsan_mutex_post_lock(...) ((void)0)
#define __tsan_mutex_pre_unlock(...) ((void)0)
#define __tsan_mutex_post_unlock(...) ((void)0)
#define __tsan_mutex_pre_signal(...) ((void)0)
#define __tsan_mutex_post_signal(...) ((void)0)

// One source file of the generated program of h_proc (C24): everything here exists once per translation unit.
#pragma once
#ifndef FN_LOG_MAX_LOG_QUEUE_SIZE
#define FN_LOG_MAX_LOG_QUEUE_SIZE 200
#endif
#define FN_LOG_MAX_LOG_SIZE 1000
#include "fn_log.h"
#include <functional>
extern FNLog::Logger named_logger; // an ordinary global logger

struct Unit
{
    const char* name;
    FNLog::Logger* (*dflt)();
    int (*fast)(bool named, const std::string& text);
    int (*load)(bool named, const std::string& path);
    int (*stop)(bool named);
    void (*log)(bool named, int style, int channel, int priority, const char* text);
    long long (*written)(bool named, int channel);
    void (*late)(void (*work)(int, int), int arg);       // an object of static storage, constructed at the first call
    void (*at_exit)(void (*work)(int, int), int arg);    // a function registered with atexit
    void (*thread_end)(void (*work)(int, int), int arg); // an object of the calling thread
};

#ifdef UNIT
namespace
{
    FNLog::Logger& which(bool named) { return named ? named_logger : FNLog::GetDefaultLogger(); }
    // (a new thread has one second to begin, which may not be enough on an overloaded machine)
    template <class F> int retry(F f) { int rc = f(); for (int i = 0; i < 2 && rc == FNLog::E_CHANNEL_THREAD_FAILED; i++) rc = f(); return rc; }
    FNLog::Logger* u_dflt() { return &FNLog::GetDefaultLogger(); }
    int u_fast(bool named, const std::string& text) { return retry([&] { return named ? FNLog::ParseAndStartLogger(named_logger, text) : FNLog::FastStartDefaultLogger(text); }); }
    int u_load(bool named, const std::string& path) { return retry([&] { return named ? FNLog::LoadAndStartLogger(named_logger, path) : FNLog::LoadAndStartDefaultLogger(path); }); }
    int u_stop(bool named) { return FNLog::StopLogger(which(named)); }
    void u_log(bool named, int style, int channel, int priority, const char* text)
    {
        if (named || style == 0)
        {
            LOG_STREAM_ORIGIN_REF(which(named), channel, priority, 0, 0, FNLog::LOG_PREFIX_DEFAULT) << text;
            return;
        }
        switch (style * 10 + priority)
        {
        case 10: LogTraceStream(channel, 0, 0) << text; break;
        case 11: LogDebugStream(channel, 0, 0) << text; break;
        case 12: LogInfoStream(channel, 0, 0) << text; break;
        case 13: LogWarnStream(channel, 0, 0) << text; break;
        case 14: LogErrorStream(channel, 0, 0) << text; break;
        case 15: LogAlarmStream(channel, 0, 0) << text; break;
        case 16: LogFatalStream(channel, 0, 0) << text; break;
        case 20: LOGFMT_TRACE(channel, 0, 0, "%s", text); break;
        case 21: LOGFMT_DEBUG(channel, 0, 0, "%s", text); break;
        case 22: LOGFMT_INFO(channel, 0, 0, "%s", text); break;
        case 23: LOGFMT_WARN(channel, 0, 0, "%s", text); break;
        case 24: LOGFMT_ERROR(channel, 0, 0, "%s", text); break;
        case 25: LOGFMT_ALARM(channel, 0, 0, "%s", text); break;
        case 26: LOGFMT_FATAL(channel, 0, 0, "%s", text); break;
        }
    }
    long long u_written(bool named, int channel) { return FNLog::GetChannelLog(which(named), channel, FNLog::CHANNEL_LOG_PROCESSED); }
    struct Late
    {
        void (*work)(int, int);
        int arg, how;
        ~Late() { if (work) work(how, arg); }
    };
    void u_late(void (*work)(int, int), int arg) { static Late l{work, arg, 0}; }
    void (*exit_work)(int, int);
    int exit_arg;
    void run_exit() { exit_work(1, exit_arg); }
    void u_at_exit(void (*work)(int, int), int arg) { exit_work = work; exit_arg = arg; atexit(run_exit); }
    void u_thread_end(void (*work)(int, int), int arg) { static thread_local Late l{work, arg, 2}; }
}
extern Unit UNIT;
Unit UNIT = {__BASE_FILE__, u_dflt, u_fast, u_load, u_stop, u_log, u_written, u_late, u_at_exit, u_thread_end};
#endif

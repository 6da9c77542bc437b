/* LD_PRELOAD disk seam: observes, logs and injects faults into the file-system
 * calls of one simulated process.  Only paths below the configured scratch root
 * are faulted; modifications outside it are refused (fence) and logged. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <time.h>

#define EXPORT __attribute__((visibility("default")))

enum { K_OPENW=1, K_WRITE=2, K_RENAME=4, K_UNLINK=8, K_MKDIR=16, K_RMDIR=32,
       K_TRUNC=64, K_LINK=128, K_CLOSEW=256, K_OPENR=512, K_READ=1024, K_MMAP=2048,
       K_FSYNC=4096 };
#define K_MUT (K_OPENW|K_WRITE|K_RENAME|K_UNLINK|K_MKDIR|K_RMDIR|K_TRUNC|K_LINK)

enum { A_NONE=0, A_CRASH_BEFORE=1, A_CRASH_AFTER=2, A_CRASH_PARTIAL=3, A_ERR=4,
       A_ERR_PARTIAL=5, A_SHORT=6, A_EINTR=7 };

typedef struct { int kind; int64_t ret; int err; int64_t size; int fault; char path[232]; char path2[232]; } rec_t;
typedef struct {
  int kindmask; int action; int err; int sticky; int64_t nth; int64_t seen; int64_t fired;
  int64_t limit;            /* max firings, 0 = 1 when not sticky */
  char sub[200];            /* path substring, "" = any */
} rule_t;

#define NFD 8192
static char *fdpath[NFD];
static char fdw[NFD];
static char root[PATH_MAX]; static size_t rootlen;
static int active=0, fence=0;
static rule_t rules[16]; static int nrules=0;
static int64_t mutops=0, readops=0, space_left=-1, shortfired=0, fenced=0, enospc=0;
static rec_t *logbuf=0; static int64_t nlog=0, caplog=0;
static int crash_fd=-1;

#define REAL(ret,name,...) static ret (*real_##name)(__VA_ARGS__); \
  static inline void init_##name(void){ if(!real_##name) *(void**)(&real_##name)=dlsym(RTLD_NEXT,#name); }

REAL(int,open,const char*,int,...)
REAL(int,open64,const char*,int,...)
REAL(int,openat,int,const char*,int,...)
REAL(int,openat64,int,const char*,int,...)
REAL(int,creat,const char*,mode_t)
REAL(FILE*,fopen,const char*,const char*)
REAL(FILE*,fopen64,const char*,const char*)
REAL(ssize_t,write,int,const void*,size_t)
REAL(ssize_t,pwrite,int,const void*,size_t,off_t)
REAL(ssize_t,pwrite64,int,const void*,size_t,off64_t)
REAL(ssize_t,writev,int,const struct iovec*,int)
REAL(ssize_t,sendfile,int,int,off_t*,size_t)
REAL(ssize_t,sendfile64,int,int,off64_t*,size_t)
REAL(ssize_t,copy_file_range,int,off64_t*,int,off64_t*,size_t,unsigned)
REAL(int,close,int)
REAL(int,fclose,FILE*)
REAL(int,rename,const char*,const char*)
REAL(int,renameat,int,const char*,int,const char*)
REAL(int,renameat2,int,const char*,int,const char*,unsigned)
REAL(int,unlink,const char*)
REAL(int,remove,const char*)
REAL(int,unlinkat,int,const char*,int)
REAL(int,rmdir,const char*)
REAL(int,mkdir,const char*,mode_t)
REAL(int,mkdirat,int,const char*,mode_t)
REAL(int,truncate,const char*,off_t)
REAL(int,truncate64,const char*,off64_t)
REAL(int,ftruncate,int,off_t)
REAL(int,ftruncate64,int,off64_t)
REAL(int,link,const char*,const char*)
REAL(int,linkat,int,const char*,int,const char*,int)
REAL(int,symlink,const char*,const char*)
REAL(int,symlinkat,const char*,int,const char*)
REAL(ssize_t,read,int,void*,size_t)
REAL(ssize_t,pread,int,void*,size_t,off_t)
REAL(ssize_t,pread64,int,void*,size_t,off64_t)
REAL(ssize_t,readv,int,const struct iovec*,int)
REAL(void*,mmap,void*,size_t,int,int,int,off_t)
REAL(void*,mmap64,void*,size_t,int,int,int,off64_t)
REAL(int,fsync,int)
REAL(int,fdatasync,int)
REAL(int,dup,int)

static void resolve(int dirfd,const char*p,char*out){
  char tmp[PATH_MAX*2];
  if(!p){out[0]=0;return;}
  if(p[0]=='/') snprintf(tmp,sizeof tmp,"%s",p);
  else if(dirfd==AT_FDCWD){ char c[PATH_MAX]; if(!getcwd(c,sizeof c)) c[0]=0; snprintf(tmp,sizeof tmp,"%s/%s",c,p);}
  else { char l[64],c[PATH_MAX]; snprintf(l,sizeof l,"/proc/self/fd/%d",dirfd); ssize_t n=readlink(l,c,sizeof c-1); if(n<0)n=0; c[n]=0; snprintf(tmp,sizeof tmp,"%s/%s",c,p);}
  /* lexical normalisation */
  char *segs[512]; int ns=0; char *save; char buf[PATH_MAX*2]; strcpy(buf,tmp);
  for(char*s=strtok_r(buf,"/",&save);s;s=strtok_r(0,"/",&save)){
    if(!strcmp(s,".")) continue;
    if(!strcmp(s,"..")){ if(ns) ns--; continue; }
    if(ns<512) segs[ns++]=s;
  }
  size_t o=0; out[0]=0; if(!ns){strcpy(out,"/");return;}
  for(int i=0;i<ns;i++){ size_t l=strlen(segs[i]); if(o+l+2>=PATH_MAX) break; out[o++]='/'; memcpy(out+o,segs[i],l); o+=l; out[o]=0; }
}
static int inroot(const char*p){ return rootlen && !strncmp(p,root,rootlen) && (p[rootlen]==0||p[rootlen]=='/'); }
static int devlike(const char*p){ return (!strncmp(p,"/dev/",5)&&strncmp(p,"/dev/shm/",9))||!strncmp(p,"/proc/",6); }

static rec_t* logrec(int kind,const char*p,const char*p2,int64_t size){
  if(nlog>=caplog){ int64_t nc=caplog?caplog*2:1024; rec_t*nb=realloc(logbuf,nc*sizeof(rec_t)); if(!nb) return 0; logbuf=nb; caplog=nc; }
  rec_t*r=&logbuf[nlog++]; memset(r,0,sizeof *r); r->kind=kind; r->size=size;
  const char*q=p; size_t l=strlen(p); if(l>=sizeof r->path) q=p+(l-sizeof r->path+1); strncpy(r->path,q,sizeof r->path-1);
  if(p2){ q=p2; l=strlen(p2); if(l>=sizeof r->path2) q=p2+(l-sizeof r->path2+1); strncpy(r->path2,q,sizeof r->path2-1);}
  return r;
}
static void die(void){
  if(crash_fd>=0){ char c='C'; syscall(SYS_write,crash_fd,&c,1); }
  syscall(SYS_exit_group,137);
}
/* decide the fault for an operation; returns action, sets *err */
static int decide(int kind,const char*p,const char*p2,int64_t size,int*err,rec_t**rp){
  if(kind&K_MUT) mutops++; else readops++;
  rec_t*r=logrec(kind,p,p2,size); *rp=r;
  for(int i=0;i<nrules;i++){
    rule_t*u=&rules[i];
    if(!(u->kindmask&kind)) continue;
    if(u->sub[0] && !strstr(p,u->sub) && !(p2&&strstr(p2,u->sub))) continue;
    u->seen++;
    if(u->seen<u->nth) continue;
    if(!u->sticky && u->fired>=(u->limit?u->limit:1)) continue;
    if((u->action==A_SHORT||u->action==A_CRASH_PARTIAL||u->action==A_ERR_PARTIAL)&&kind!=K_WRITE){
      if(u->action==A_SHORT) continue;
      u->fired++; if(r) r->fault=u->action;
      if(u->action==A_CRASH_PARTIAL) return A_CRASH_BEFORE;
      *err=u->err; return A_ERR;
    }
    u->fired++; if(r) r->fault=u->action; *err=u->err; return u->action;
  }
  if(kind==K_WRITE && space_left>=0){
    if(size>space_left){ enospc++; *err=ENOSPC; if(r) r->fault=100; return 100; }
    space_left-=size;
  }
  return A_NONE;
}
static int fence_check(int kind,const char*p,const char*p2){
  /* 1: below root (subject to faults); 0: pass through; -1: refuse */
  if(!active) return 0;
  int a=inroot(p)||devlike(p), b=!p2||inroot(p2);
  if(kind&K_MUT){
    if(inroot(p)&&b) return 1;
    if(a&&b) return 0;
    if(fence){ fenced++; rec_t*r=logrec(kind|(1<<20),p,p2,0); if(r) r->err=EACCES; return -1; }
    return 0;
  }
  return inroot(p)?1:0;
}
static int writing(int flags){ int acc=flags&O_ACCMODE; return acc!=O_RDONLY || (flags&(O_CREAT|O_TRUNC)); }
static void track(int fd,const char*p,int w){ if(fd>=0&&fd<NFD){ free(fdpath[fd]); fdpath[fd]=strdup(p); fdw[fd]=w; } }
static void untrack(int fd){ if(fd>=0&&fd<NFD&&fdpath[fd]){ free(fdpath[fd]); fdpath[fd]=0; fdw[fd]=0; } }

#define FIN(r,res) do{ if(r){ (r)->ret=(int64_t)(res); if((int64_t)(res)<0)(r)->err=errno; } }while(0)

static int do_open(int dirfd,const char*path,int flags,mode_t mode){
  init_openat();
  if(!active) { int fd=real_openat(dirfd,path,flags,mode); return fd; }
  char p[PATH_MAX]; resolve(dirfd,path,p);
  if((flags&O_TMPFILE)==O_TMPFILE||(flags&O_DIRECTORY)) return real_openat(dirfd,path,flags,mode);
  int kind=writing(flags)?K_OPENW:K_OPENR;
  int f=fence_check(kind,p,0);
  if(f<0){ errno=EACCES; return -1; }
  if(f==0) return real_openat(dirfd,path,flags,mode);
  int err=0; rec_t*r; int a=decide(kind,p,0,flags,&err,&r); int64_t ri=nlog-1;
  if(a==A_CRASH_BEFORE) die();
  if(a==A_ERR){ if(r) r->ret=-1,r->err=err; errno=err; return -1; }
  int fd=real_openat(dirfd,path,flags,mode);
  r=&logbuf[ri]; FIN(r,fd);
  if(a==A_CRASH_AFTER) die();
  if(fd>=0) track(fd,p,kind==K_OPENW);
  return fd;
}
EXPORT int open(const char*p,int flags,...){ mode_t m=0; if(flags&(O_CREAT|O_TMPFILE)){va_list a;va_start(a,flags);m=va_arg(a,int);va_end(a);} return do_open(AT_FDCWD,p,flags,m);}
EXPORT int open64(const char*p,int flags,...){ mode_t m=0; if(flags&(O_CREAT|O_TMPFILE)){va_list a;va_start(a,flags);m=va_arg(a,int);va_end(a);} return do_open(AT_FDCWD,p,flags|O_LARGEFILE,m);}
EXPORT int openat(int d,const char*p,int flags,...){ mode_t m=0; if(flags&(O_CREAT|O_TMPFILE)){va_list a;va_start(a,flags);m=va_arg(a,int);va_end(a);} return do_open(d,p,flags,m);}
EXPORT int openat64(int d,const char*p,int flags,...){ mode_t m=0; if(flags&(O_CREAT|O_TMPFILE)){va_list a;va_start(a,flags);m=va_arg(a,int);va_end(a);} return do_open(d,p,flags|O_LARGEFILE,m);}
EXPORT int creat(const char*p,mode_t m){ return do_open(AT_FDCWD,p,O_CREAT|O_WRONLY|O_TRUNC,m);}
static FILE* do_fopen(const char*path,const char*mode,FILE*(*rf)(const char*,const char*)){
  if(!active) return rf(path,mode);
  char p[PATH_MAX]; resolve(AT_FDCWD,path,p);
  int w=strpbrk(mode,"wa+")!=0; int kind=w?K_OPENW:K_OPENR;
  int f=fence_check(kind,p,0);
  if(f<0){ errno=EACCES; return 0; }
  if(f==0) return rf(path,mode);
  int err=0; rec_t*r; int a=decide(kind,p,0,0,&err,&r); int64_t ri=nlog-1;
  if(a==A_CRASH_BEFORE) die();
  if(a==A_ERR){ if(r) r->ret=-1,r->err=err; errno=err; return 0; }
  FILE*fp=rf(path,mode); r=&logbuf[ri]; FIN(r,fp?0:-1);
  if(a==A_CRASH_AFTER) die();
  if(fp) track(fileno(fp),p,w);
  return fp;
}
EXPORT FILE* fopen(const char*p,const char*m){ init_fopen(); return do_fopen(p,m,real_fopen);}
EXPORT FILE* fopen64(const char*p,const char*m){ init_fopen64(); return do_fopen(p,m,real_fopen64);}

/* generic write-like op: returns -2 to proceed with the full op, otherwise result */
static ssize_t wr_pre(int fd,int64_t size,int*act,int64_t*lim,int64_t*ri){
  int err=0; rec_t*r; int a=decide(K_WRITE,fdpath[fd],0,size,&err,&r); *ri=nlog-1; *act=a; *lim=size;
  if(a==A_CRASH_BEFORE) die();
  if(a==A_ERR){ r->ret=-1; r->err=err; errno=err; return -1; }
  if(a==A_EINTR) { return -2; }
  if(a==A_CRASH_PARTIAL) *lim=size/2;
  if(a==A_ERR_PARTIAL){ *lim=size/2; if(!*lim){ r->ret=-1;r->err=err;errno=err; return -1; } }
  if(a==A_SHORT){ *lim=size>1?size/2:size; if(*lim!=size) shortfired++; }
  if(a==100){ *lim=space_left; space_left=0; if(!*lim){ r->ret=-1;r->err=ENOSPC;errno=ENOSPC; return -1; } }
  return -2;
}
static void wr_post(int act,int64_t ri,ssize_t n){
  FIN(&logbuf[ri],n); if(act==A_CRASH_PARTIAL||act==A_CRASH_AFTER) die();
}
#define TRACKEDW(fd) (active&&(fd)>=0&&(fd)<NFD&&fdpath[fd]&&fdw[fd])
#define TRACKED(fd) (active&&(fd)>=0&&(fd)<NFD&&fdpath[fd])
EXPORT ssize_t write(int fd,const void*b,size_t n){ init_write(); if(!TRACKEDW(fd)) return real_write(fd,b,n);
  int a; int64_t l,ri; ssize_t x=wr_pre(fd,n,&a,&l,&ri); if(x!=-2) return x; x=real_write(fd,b,l); wr_post(a,ri,x); return x; }
EXPORT ssize_t pwrite(int fd,const void*b,size_t n,off_t o){ init_pwrite(); if(!TRACKEDW(fd)) return real_pwrite(fd,b,n,o);
  int a; int64_t l,ri; ssize_t x=wr_pre(fd,n,&a,&l,&ri); if(x!=-2) return x; x=real_pwrite(fd,b,l,o); wr_post(a,ri,x); return x; }
EXPORT ssize_t pwrite64(int fd,const void*b,size_t n,off64_t o){ init_pwrite64(); if(!TRACKEDW(fd)) return real_pwrite64(fd,b,n,o);
  int a; int64_t l,ri; ssize_t x=wr_pre(fd,n,&a,&l,&ri); if(x!=-2) return x; x=real_pwrite64(fd,b,l,o); wr_post(a,ri,x); return x; }
EXPORT ssize_t writev(int fd,const struct iovec*v,int c){ init_writev(); if(!TRACKEDW(fd)) return real_writev(fd,v,c);
  int64_t n=0; for(int i=0;i<c;i++) n+=v[i].iov_len;
  int a; int64_t l,ri; ssize_t x=wr_pre(fd,n,&a,&l,&ri); if(x!=-2) return x;
  if(l==n) x=real_writev(fd,v,c);
  else { init_write(); ssize_t tot=0; x=0; for(int i=0;i<c&&l>0;i++){ size_t k=v[i].iov_len<(size_t)l?v[i].iov_len:(size_t)l; if(!k) continue; ssize_t y=real_write(fd,v[i].iov_base,k); if(y<0){ if(!tot) tot=-1; break;} tot+=y; l-=y; if((size_t)y<k) break;} x=tot; }
  wr_post(a,ri,x); return x; }
EXPORT ssize_t sendfile(int o,int i,off_t*f,size_t n){ init_sendfile(); if(!TRACKEDW(o)) return real_sendfile(o,i,f,n);
  struct stat st; size_t m=n; if(!fstat(i,&st)){ off_t at=f?*f:lseek(i,0,SEEK_CUR); if(at<st.st_size){ if((off_t)m>st.st_size-at) m=st.st_size-at; } else return 0; }
  int a; int64_t l,ri; ssize_t x=wr_pre(o,m,&a,&l,&ri); if(x!=-2) return x; x=real_sendfile(o,i,f,l); wr_post(a,ri,x); return x; }
EXPORT ssize_t sendfile64(int o,int i,off64_t*f,size_t n){ return sendfile(o,i,(off_t*)f,n); }
EXPORT ssize_t copy_file_range(int i,off64_t*io,int o,off64_t*oo,size_t n,unsigned fl){ init_copy_file_range(); if(!TRACKEDW(o)) return real_copy_file_range(i,io,o,oo,n,fl);
  int a; int64_t l,ri; ssize_t x=wr_pre(o,n,&a,&l,&ri); if(x!=-2) return x; x=real_copy_file_range(i,io,o,oo,l,fl); wr_post(a,ri,x); return x; }
EXPORT int close(int fd){ init_close(); if(TRACKEDW(fd)){ int err=0; rec_t*r; int a=decide(K_CLOSEW,fdpath[fd],0,0,&err,&r); if(a==A_CRASH_BEFORE||a==A_CRASH_AFTER||a==A_CRASH_PARTIAL) die(); } untrack(fd); return real_close(fd);}
EXPORT int fclose(FILE*f){ init_fclose(); if(f) untrack(fileno(f)); return real_fclose(f);}
EXPORT int dup(int fd){ init_dup(); int n=real_dup(fd); if(n>=0&&TRACKED(fd)) track(n,fdpath[fd],fdw[fd]); return n; }

#define MUT2(kind,P,P2,SZ,CALL) do{ \
  int f_=fence_check(kind,P,P2); if(f_<0){errno=EACCES;return -1;} if(!f_) return CALL; \
  int err=0; rec_t*r; int a=decide(kind,P,P2,SZ,&err,&r); int64_t ri=nlog-1; \
  if(a==A_CRASH_BEFORE) die(); if(a==A_ERR||a==A_ERR_PARTIAL){ r->ret=-1; r->err=err; errno=err; return -1; } \
  int x=CALL; FIN(&logbuf[ri],x); if(a==A_CRASH_AFTER) die(); return x; }while(0)

EXPORT int rename(const char*a_,const char*b_){ init_rename(); if(!active) return real_rename(a_,b_); char p[PATH_MAX],q[PATH_MAX]; resolve(AT_FDCWD,a_,p); resolve(AT_FDCWD,b_,q); MUT2(K_RENAME,p,q,0,real_rename(a_,b_)); }
EXPORT int renameat(int d1,const char*a_,int d2,const char*b_){ init_renameat(); if(!active) return real_renameat(d1,a_,d2,b_); char p[PATH_MAX],q[PATH_MAX]; resolve(d1,a_,p); resolve(d2,b_,q); MUT2(K_RENAME,p,q,0,real_renameat(d1,a_,d2,b_)); }
EXPORT int renameat2(int d1,const char*a_,int d2,const char*b_,unsigned fl){ init_renameat2(); if(!active) return real_renameat2(d1,a_,d2,b_,fl); char p[PATH_MAX],q[PATH_MAX]; resolve(d1,a_,p); resolve(d2,b_,q); MUT2(K_RENAME,p,q,0,real_renameat2(d1,a_,d2,b_,fl)); }
EXPORT int unlink(const char*a_){ init_unlink(); if(!active) return real_unlink(a_); char p[PATH_MAX]; resolve(AT_FDCWD,a_,p); MUT2(K_UNLINK,p,0,0,real_unlink(a_)); }
EXPORT int remove(const char*a_){ init_remove(); if(!active) return real_remove(a_); char p[PATH_MAX]; resolve(AT_FDCWD,a_,p); MUT2(K_UNLINK,p,0,0,real_remove(a_)); }
EXPORT int unlinkat(int d,const char*a_,int fl){ init_unlinkat(); if(!active) return real_unlinkat(d,a_,fl); char p[PATH_MAX]; resolve(d,a_,p); int k=(fl&AT_REMOVEDIR)?K_RMDIR:K_UNLINK; MUT2(k,p,0,0,real_unlinkat(d,a_,fl)); }
EXPORT int rmdir(const char*a_){ init_rmdir(); if(!active) return real_rmdir(a_); char p[PATH_MAX]; resolve(AT_FDCWD,a_,p); MUT2(K_RMDIR,p,0,0,real_rmdir(a_)); }
EXPORT int mkdir(const char*a_,mode_t m){ init_mkdir(); if(!active) return real_mkdir(a_,m); char p[PATH_MAX]; resolve(AT_FDCWD,a_,p); MUT2(K_MKDIR,p,0,0,real_mkdir(a_,m)); }
EXPORT int mkdirat(int d,const char*a_,mode_t m){ init_mkdirat(); if(!active) return real_mkdirat(d,a_,m); char p[PATH_MAX]; resolve(d,a_,p); MUT2(K_MKDIR,p,0,0,real_mkdirat(d,a_,m)); }
EXPORT int truncate(const char*a_,off_t l){ init_truncate(); if(!active) return real_truncate(a_,l); char p[PATH_MAX]; resolve(AT_FDCWD,a_,p); MUT2(K_TRUNC,p,0,l,real_truncate(a_,l)); }
EXPORT int truncate64(const char*a_,off64_t l){ return truncate(a_,l); }
EXPORT int ftruncate(int fd,off_t l){ init_ftruncate(); if(!TRACKEDW(fd)) return real_ftruncate(fd,l); char p[PATH_MAX]; snprintf(p,sizeof p,"%s",fdpath[fd]); MUT2(K_TRUNC,p,0,l,real_ftruncate(fd,l)); }
EXPORT int ftruncate64(int fd,off64_t l){ return ftruncate(fd,l); }
EXPORT int link(const char*a_,const char*b_){ init_link(); if(!active) return real_link(a_,b_); char p[PATH_MAX],q[PATH_MAX]; resolve(AT_FDCWD,a_,p); resolve(AT_FDCWD,b_,q); MUT2(K_LINK,q,0,0,real_link(a_,b_)); }
EXPORT int linkat(int d1,const char*a_,int d2,const char*b_,int fl){ init_linkat(); if(!active) return real_linkat(d1,a_,d2,b_,fl); char q[PATH_MAX]; resolve(d2,b_,q); MUT2(K_LINK,q,0,0,real_linkat(d1,a_,d2,b_,fl)); }
EXPORT int symlink(const char*a_,const char*b_){ init_symlink(); if(!active) return real_symlink(a_,b_); char q[PATH_MAX]; resolve(AT_FDCWD,b_,q); MUT2(K_LINK,q,0,0,real_symlink(a_,b_)); }
EXPORT int symlinkat(const char*a_,int d,const char*b_){ init_symlinkat(); if(!active) return real_symlinkat(a_,d,b_); char q[PATH_MAX]; resolve(d,b_,q); MUT2(K_LINK,q,0,0,real_symlinkat(a_,d,b_)); }
EXPORT int fsync(int fd){ init_fsync(); if(!TRACKED(fd)) return real_fsync(fd); int err=0; rec_t*r; int a=decide(K_FSYNC,fdpath[fd],0,0,&err,&r); if(a==A_ERR){errno=err;return -1;} return real_fsync(fd);}
EXPORT int fdatasync(int fd){ init_fdatasync(); if(!TRACKED(fd)) return real_fdatasync(fd); int err=0; rec_t*r; int a=decide(K_FSYNC,fdpath[fd],0,0,&err,&r); if(a==A_ERR){errno=err;return -1;} return real_fdatasync(fd);}

static ssize_t rd_pre(int fd,int64_t n,int*act,int64_t*lim){
  int err=0; rec_t*r; int a=decide(K_READ,fdpath[fd],0,n,&err,&r); *act=a; *lim=n;
  if(a==A_CRASH_BEFORE||a==A_CRASH_AFTER||a==A_CRASH_PARTIAL) die();
  if(a==A_ERR||a==A_ERR_PARTIAL){ r->ret=-1;r->err=err; errno=err; return -1; }
  if(a==A_SHORT&&n>1){ *lim=n/2; shortfired++; }
  return -2;
}
EXPORT ssize_t read(int fd,void*b,size_t n){ init_read(); if(!TRACKED(fd)) return real_read(fd,b,n); int a; int64_t l; ssize_t x=rd_pre(fd,n,&a,&l); if(x!=-2) return x; return real_read(fd,b,l);}
EXPORT ssize_t pread(int fd,void*b,size_t n,off_t o){ init_pread(); if(!TRACKED(fd)) return real_pread(fd,b,n,o); int a; int64_t l; ssize_t x=rd_pre(fd,n,&a,&l); if(x!=-2) return x; return real_pread(fd,b,l,o);}
EXPORT ssize_t pread64(int fd,void*b,size_t n,off64_t o){ init_pread64(); if(!TRACKED(fd)) return real_pread64(fd,b,n,o); int a; int64_t l; ssize_t x=rd_pre(fd,n,&a,&l); if(x!=-2) return x; return real_pread64(fd,b,l,o);}
EXPORT ssize_t readv(int fd,const struct iovec*v,int c){ init_readv(); if(!TRACKED(fd)) return real_readv(fd,v,c); int a; int64_t l; ssize_t x=rd_pre(fd,0,&a,&l); if(x!=-2) return x; return real_readv(fd,v,c);}
static int mm_pre(int fd,size_t n){ int err=0; rec_t*r; int a=decide(K_MMAP,fdpath[fd],0,n,&err,&r); if(a==A_ERR||a==A_ERR_PARTIAL){ r->ret=-1; r->err=err; errno=err; return -1;} if(a==A_CRASH_BEFORE||a==A_CRASH_AFTER||a==A_CRASH_PARTIAL) die(); return 0; }
EXPORT void* mmap(void*ad,size_t n,int pr,int fl,int fd,off_t o){ if(TRACKED(fd)&&!(fl&MAP_ANONYMOUS)){ if(mm_pre(fd,n)<0) return MAP_FAILED; } return (void*)syscall(SYS_mmap,ad,n,pr,fl,fd,o);}
EXPORT void* mmap64(void*ad,size_t n,int pr,int fl,int fd,off64_t o){ if(TRACKED(fd)&&!(fl&MAP_ANONYMOUS)){ if(mm_pre(fd,n)<0) return MAP_FAILED; } return (void*)syscall(SYS_mmap,ad,n,pr,fl,fd,o);}

/* ---- control interface (ctypes) ---- */
EXPORT void sh_reset(const char*rt){ active=0; nrules=0; mutops=readops=shortfired=fenced=enospc=0; space_left=-1; nlog=0; if(rt){ snprintf(root,sizeof root,"%s",rt); rootlen=strlen(root);} }
EXPORT void sh_activate(int on,int fc){ active=on; fence=fc; }
EXPORT void sh_crashfd(int fd){ crash_fd=fd; }
/* wall clock: starts at a chosen second, one microsecond per reading */
static int64_t wall_base; static int64_t wall_n;
EXPORT void sh_wall(int64_t b){ wall_base=b; wall_n=0; }
EXPORT int clock_gettime(clockid_t c,struct timespec*t){
  static int(*real)(clockid_t,struct timespec*);
  if(!real) real=dlsym(RTLD_NEXT,"clock_gettime");
  if(c==CLOCK_REALTIME && wall_base && active){ int64_t n=__sync_fetch_and_add(&wall_n,1); t->tv_sec=wall_base+n/1000000; t->tv_nsec=(n%1000000)*1000; return 0; }
  return real(c,t);
}
EXPORT void sh_space(int64_t n){ space_left=n; }
EXPORT int sh_rule(int kindmask,const char*sub,int64_t nth,int action,int err,int sticky,int64_t limit){ if(nrules>=16) return -1; rule_t*u=&rules[nrules++]; memset(u,0,sizeof*u); u->kindmask=kindmask; snprintf(u->sub,sizeof u->sub,"%s",sub?sub:""); u->nth=nth; u->action=action; u->err=err; u->sticky=sticky; u->limit=limit; return nrules-1; }
EXPORT void sh_clear_rules(void){ nrules=0; space_left=-1; }
EXPORT int64_t sh_fired(int i){ return i<nrules?rules[i].fired:0; }
EXPORT int64_t sh_seen(int i){ return i<nrules?rules[i].seen:0; }
EXPORT int64_t sh_stat(int w){ switch(w){case 0:return mutops;case 1:return readops;case 2:return shortfired;case 3:return fenced;case 4:return enospc;case 5:return nlog;} return 0; }
EXPORT rec_t* sh_log(void){ return logbuf; }

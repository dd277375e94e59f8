#define BUILD_COMMIT_ID "ab479d8"
#define PROJECT_VERSION "6.7.5"
#define PROJECT_VERSION_BUILD_NO "Trebopala"
#define PROJECT_VERSION_LONG PROJECT_VERSION "-" BUILD_COMMIT_ID " (" PROJECT_VERSION_BUILD_NO ")"
#define CCX_RELEASE_VERSION "Conceal v" PROJECT_VERSION_LONG
#define CCX_WALLET_RELEASE_VERSION "Conceal Wallet v" PROJECT_VERSION_LONG
#define CCX_PAYMENT_SERVICE_RELEASE_VERSION "Conceal PaymentService v" PROJECT_VERSION_LONG
